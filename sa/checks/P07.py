"""P07: nothing takes its order from a set or from hash values."""
import ast
from ..core import walk_own, dotted, targets, bind, text, Func, Class, parents
from ..consts import callers
from ..flow import flow
from ..reach import reach
from ..util import library_code

TECHNIQUE = "type and order inference: which expressions are sets or sequences and mappings whose order comes from one (through variables, fields, parameters and results), and a dataflow from there to every place where order matters"
NOTE = "Order may flow into sets, sorted() with a key that tells items apart, counts, sums and membership tests without harm. The order of a mapping's keys counts only where it is stepped through. An object reached only through an unresolved call is not followed."

MAXD = 3
LOAD = ast.Load()
PASS = {"list", "tuple", "iter", "reversed", "filter", "map", "chain", "islice", "takewhile", "dropwhile", "combinations", "permutations", "product", "deque", "from_iterable", "accumulate", "starmap", "filterfalse", "cycle", "groupby", "copy", "deepcopy", "combinations_with_replacement"}
NUMBER = {"zip", "enumerate", "zip_longest", "pairwise"}
SETOPS = {"union", "intersection", "difference", "symmetric_difference", "copy"}
LOG = {"debug", "info", "warning", "error", "critical", "exception", "warn", "log"}
WRITES = {"write", "writelines", "writerow", "writerows", "print"}


class T:
    """kinds: set, seq, seqU (a sequence in arbitrary order), map, mapU; elem: type of the items or values; str: items are strings"""
    __slots__ = ("kinds", "elem")

    def __init__(self, kinds=(), elem=None):
        self.kinds, self.elem = frozenset(kinds), elem

    def unordered(self):
        return bool(self.kinds & {"set", "seqU", "mapU"})

    def __eq__(self, o):
        return isinstance(o, T) and self.kinds == o.kinds and self.elem == o.elem

    def __hash__(self):
        return hash(self.kinds)

    def __repr__(self):
        return "/".join(sorted(self.kinds)) + ("[%r]" % self.elem if self.elem else "")


NONE = T()


def join(a, b, d=0):
    if not a or a is NONE:
        return b or NONE
    if not b or b is NONE or a == b:
        return a
    e = join(a.elem, b.elem, d + 1) if d < MAXD else (a.elem or b.elem)
    return T(a.kinds | b.kinds, e if e is not NONE else None)


def elem(t):
    return t.elem if t is not None and t.elem is not None else NONE


class Types:
    def __init__(self, prj, fold):
        self.prj, self.fold = prj, fold
        self.fl = flow(prj, fold)
        self.memo, self.prev, self.busy = {}, {}, set()
        self.funcs = [f for f in prj.funcs] + [m.main for m in prj.modules.values() if m.main not in prj.funcs]
        self.stores = {}        # attribute -> [(func, value node or T, how)]
        self.ops = {}           # (func, name) -> [(how, node, value)]
        self.aops = {}          # attr -> [(how, func, node, value)]
        for f in self.funcs:
            for n in walk_own(f.node, include_lambda=False):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        self.store(f, t, n.value, n)
                elif isinstance(n, ast.AugAssign):
                    self.op("aug", f, n.target, n, n.value)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    a = n.func.attr
                    if a in ("append", "appendleft", "insert", "extend", "add", "update", "setdefault", "sort") or a == "set" and len(n.args) == 2:
                        self.op(a, f, n.func.value, n, n.args[-1] if n.args else None)
                    elif a in ("__init__",):
                        pass
        for c in prj.classes:
            for a, v in c.attrs.items():
                if v is not None:
                    self.stores.setdefault(a, []).append((c, self.mainof(c), v))

        self.solve()

    def mainof(self, c):
        return c.module.main

    def store(self, f, t, v, n):
        if isinstance(t, ast.Attribute):
            self.stores.setdefault(t.attr, []).append((self.owner(t.value, f), f, v))
        elif isinstance(t, ast.Subscript):
            self.op("slice" if isinstance(t.slice, ast.Slice) else "item", f, t.value, n, v)
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (ast.Tuple, ast.List)) and len(t.elts) == len(v.elts):
            for x, y in zip(t.elts, v.elts):
                self.store(f, x, y, n)

    def owner(self, n, f):
        if isinstance(n, ast.Name):
            c = self.prj.self_class(n.id, f)
            if c is None:
                t = self.prj.lookup(n.id, f, f.module)
                c = t if isinstance(t, Class) else None
            return c
        if isinstance(n, ast.Attribute) and n.attr == "__class__" and isinstance(n.value, ast.Name):
            return self.prj.self_class(n.value.id, f)
        return None

    def op(self, how, f, base, n, v):
        depth = 0
        while isinstance(base, ast.Subscript):
            base, depth = base.value, depth + 1
        if isinstance(base, ast.Call) and isinstance(base.func, ast.Attribute) and base.func.attr in ("setdefault", "get") and base.args:
            base, depth = base.func.value, depth + 1
            while isinstance(base, ast.Subscript):
                base, depth = base.value, depth + 1
        if isinstance(base, ast.Name):
            self.ops.setdefault((self.scope(f, base.id), base.id), []).append((how, depth, f, n, v))
        elif isinstance(base, ast.Attribute):
            self.aops.setdefault(base.attr, []).append((how, depth, f, n, v, self.owner(base.value, f)))

    def scope(self, f, name):
        g = f
        while g is not None:
            if name in g.locals or name in g.allparams:
                return g
            g = g.outer
        return f.module.main

    # ---- evaluation, on demand
    def get(self, key, fn):
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return self.prev.get(key, NONE)
        self.busy.add(key)
        try:
            r = fn()
        finally:
            self.busy.discard(key)
        self.memo[key] = r
        return r

    def solve(self):
        for i in range(8):
            self.prev, self.memo = self.memo, {}
            for f in self.funcs:
                if f.is_lambda:
                    continue
                for n in walk_own(f.node, include_lambda=True):
                    if isinstance(n, (ast.For, ast.comprehension)):
                        self.t(n.iter, f)
                    elif isinstance(n, (ast.Call, ast.Name, ast.Attribute, ast.Subscript)) and isinstance(getattr(n, "ctx", LOAD), ast.Load):
                        self.t(n, f)
            if self.memo == self.prev:
                break
        self.rounds = i + 1

    def t(self, n, f):
        return self.get((n, f), lambda: self.ev(n, f)) if isinstance(n, ast.AST) else NONE

    def ev(self, n, f):
        if isinstance(n, ast.Set):
            return T(["set"], self.joined(n.elts, f))
        if isinstance(n, ast.SetComp):
            return T(["set"], self.t(n.elt, f))
        if isinstance(n, (ast.List, ast.Tuple)):
            k = "seq"
            for e in n.elts:
                if isinstance(e, ast.Starred) and self.t(e.value, f).unordered():
                    k = "seqU"
            return T([k], self.joined([e for e in n.elts if not isinstance(e, ast.Starred)], f))
        if isinstance(n, ast.Dict):
            k = "map"
            for a, b in zip(n.keys, n.values):
                if a is None and "mapU" in self.t(b, f).kinds:
                    k = "mapU"
            return T([k], self.joined([v for a, v in zip(n.keys, n.values) if a is not None], f))
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            u = any(self.t(g.iter, f).unordered() for g in n.generators)
            return T(["seqU" if u else "seq"], self.t(n.elt, f))
        if isinstance(n, ast.DictComp):
            u = any(self.t(g.iter, f).unordered() for g in n.generators)
            return T(["mapU" if u else "map"], self.t(n.value, f))
        if isinstance(n, ast.IfExp):
            return join(self.t(n.body, f), self.t(n.orelse, f))
        if isinstance(n, ast.BoolOp):
            r = NONE
            for v in n.values:
                r = join(r, self.t(v, f))
            return r
        if isinstance(n, ast.NamedExpr):
            return self.t(n.value, f)
        if isinstance(n, ast.Await):
            return self.t(n.value, f)
        if isinstance(n, ast.BinOp):
            a, b = self.t(n.left, f), self.t(n.right, f)
            if isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub)):
                view = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("keys", "items") and not x.args for x in (n.left, n.right))
                if "set" in a.kinds or view or "set" in b.kinds and not isinstance(n.op, ast.Sub):
                    return T(["set"], join(elem(a), elem(b)) if not isinstance(n.op, ast.Sub) else elem(a))
                if isinstance(n.op, ast.BitOr) and (a.kinds | b.kinds) & {"map", "mapU"}:
                    return join(a, b)
                return NONE
            if isinstance(n.op, ast.Add) and (a.kinds | b.kinds) & {"seq", "seqU"}:
                r = join(a, b)
                return T(r.kinds - {"seq"} if "seqU" in r.kinds else r.kinds, r.elem)
            if isinstance(n.op, ast.Mult):
                return a if a.kinds else b
            return NONE
        if isinstance(n, ast.Subscript):
            b = self.t(n.value, f)
            return b if isinstance(n.slice, ast.Slice) else elem(b)
        if isinstance(n, ast.Name):
            return self.name(n, f)
        if isinstance(n, ast.Attribute):
            return self.attr(n, f)
        if isinstance(n, ast.Call):
            return self.call(n, f)
        if isinstance(n, ast.Starred):
            return self.t(n.value, f)
        return NONE

    def joined(self, ns, f):
        r = NONE
        for n in ns[:30]:
            r = join(r, self.t(n, f))
        return r if r is not NONE else None

    def name(self, n, f):
        g = f
        # comprehension variables
        p = n
        while p is not None and p is not f.node:
            p = getattr(p, "_parent", None)
            for c in getattr(p, "generators", []) if p is not None else []:
                if n.id in targets(c.target):
                    if any(x is n for x in ast.walk(c.iter)) and c is p.generators[0]:
                        continue
                    return self.member(c.iter, c.target, n.id, f)
        while g is not None and not (n.id in g.locals or n.id in g.allparams):
            g = g.outer
        if g is None:
            return self.get(("global", f.module.name, n.id), lambda: self.globalname(n.id, f))
        if g is not f:
            return self.get(("var", g, n.id), lambda: self.variable(g, n.id, None))
        return self.variable(f, n.id, n)

    def globalname(self, name, f):
        t = self.prj.lookup(name, f, f.module)
        r = NONE
        m = f.module
        if isinstance(t, (Func, Class)):
            return NONE
        for s in m.globals.get(name, []):
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and v is not None:
                tg = s.targets[0] if isinstance(s, ast.Assign) else s.target
                if isinstance(tg, ast.Name):
                    r = join(r, self.t(v, m.main))
        return self.grown(r, (m.main, name), None, None)

    def member(self, it, target, name, f):
        """type of a loop variable"""
        e = self.items_of(it, f)
        if isinstance(target, ast.Name):
            return e[0]
        if isinstance(target, (ast.Tuple, ast.List)):
            for i, x in enumerate(target.elts):
                if isinstance(x, ast.Name) and x.id == name:
                    return e[1][i] if e[1] is not None and i < len(e[1]) else elem(e[0])
                if isinstance(x, (ast.Tuple, ast.List)) and any(isinstance(y, ast.Name) and y.id == name for y in x.elts):
                    return NONE
        return NONE

    def items_of(self, it, f):
        """(type of an item, types of its parts or None)"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and not it.args:
            return NONE, [NONE, elem(self.t(it.func.value, f))]
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            if it.func.id == "enumerate" and it.args:
                return NONE, [NONE, self.items_of(it.args[0], f)[0]]
            if it.func.id in ("sorted", "list", "reversed", "tuple", "set", "iter") and it.args:
                return self.items_of(it.args[0], f)
            if it.func.id == "zip":
                return NONE, [self.items_of(a, f)[0] for a in it.args]
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "values" and not it.args:
            return elem(self.t(it.func.value, f)), None
        t = self.t(it, f)
        if t.kinds and t.kinds <= {"map", "mapU"}:
            return NONE, None       # keys
        return elem(t), None

    def variable(self, f, name, use):
        r = NONE
        defs = None
        if use is not None:
            defs = reach(f).use.get(use)
        if defs is None:
            defs = set()
            if name in f.allparams or name in (f.vararg, f.kwarg):
                defs.add(("param", name, None))
            for n in walk_own(f.node, include_lambda=False):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Name) and t.id == name:
                            defs.add(("expr", n.value, None))
                elif isinstance(n, (ast.For, ast.comprehension)) and name in targets(n.target):
                    r = join(r, self.member(n.iter, n.target, name, f))
        for d in defs:
            r = join(r, self.definition(d, f, name, use))
        return self.grown(r, (f, name), use, f)

    def switches(self, use, f):
        """what the flags among the parameters are where a name is used"""
        res = set()
        prev = use
        for p in parents(use):
            if p is f.node:
                break
            if isinstance(p, (ast.If, ast.IfExp)) and prev is not p.test:
                t, pol = p.test, prev in p.body if isinstance(p, ast.If) else prev is p.body
                if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                    t, pol = t.operand, not pol
                if isinstance(t, ast.Name) and t.id in f.allparams and reach(f).use.get(t) == frozenset([("param", t.id, None)]):
                    res.add((t.id, pol))
            prev = p
        return frozenset(res)

    def definition(self, d, f, name, use=None):
        kind, n, path = d
        if kind in ("iter", "unpack") and path:
            path = tuple(x[0] if isinstance(x, tuple) else x for x in path)
        if kind == "param":
            sw = self.switches(use, f) if use is not None else frozenset()
            return self.get(("param", f, n, sw), lambda: self.param(f, n, sw))
        if kind == "expr" and isinstance(n, ast.AST):
            return self.t(n, f)
        if kind == "iter" and isinstance(n, ast.AST):
            e, parts = self.items_of(n, f)
            if not path:
                return e
            if parts is not None and len(path) == 1 and isinstance(path[0], int) and path[0] < len(parts):
                return parts[path[0]]
            for _ in path:
                e = elem(e)
            return e
        if kind == "unpack" and isinstance(n, ast.AST):
            if isinstance(n, (ast.Tuple, ast.List)) and path and isinstance(path[0], int) and path[0] < len(n.elts) and len(path) == 1:
                return self.t(n.elts[path[0]], f)
            if isinstance(n, ast.Call) and path and len(path) == 1 and isinstance(path[0], int):
                gs, exact = self.prj.callees(n, f, f.module)
                r = NONE
                for g in gs:
                    for x in walk_own(g.node, include_lambda=False):
                        if isinstance(x, ast.Return) and isinstance(x.value, ast.Tuple) and path[0] < len(x.value.elts):
                            r = join(r, self.t(x.value.elts[path[0]], g))
                return r
            return NONE
        return NONE

    def param(self, f, name, sw=frozenset()):
        if name == f.selfname and f.cls is not None:
            return self.ofclass(f.cls)
        r = NONE
        if isinstance(f.defaults.get(name), ast.AST):
            r = self.t(f.defaults[name], f.module.main)
        for c, g in callers(self.prj).get(f, [])[:60]:
            gs, exact = self.prj.callees(c, g, g.module)
            if not exact and len(gs) > 1:
                continue
            b = bind(c, f, not (f.cls is None))
            a = b.get(name)
            skip = False
            for p, pol in sw:
                v = b.get(p, f.defaults.get(p))
                if isinstance(v, ast.Constant) and bool(v.value) != pol:
                    skip = True
            if skip:
                continue
            if isinstance(a, ast.AST) and name not in (f.vararg, f.kwarg):
                r = join(r, self.t(a, g))
        return r

    def ofclass(self, c):
        for b in c.external_bases():
            b = b.split(".")[-1]
            if b in ("set", "frozenset", "Set", "MutableSet"):
                return T(["set"])
        return NONE

    def attr(self, n, f):
        c = self.owner(n.value, f)
        return self.get(("attr", n.attr, c), lambda: self.attribute(n.attr, c))

    def attribute(self, a, c):
        ss = self.stores.get(a, [])
        if c is not None:
            fam = c.family()
            ss = [s for s in ss if s[0] in fam]
            if c.find(a) is not None:
                g = c.find(a)
                return self.returns(g) if g.is_property else NONE
        else:
            own = {s[0] for s in ss if s[0] is not None}
            fams = []
            for k in own:
                if not any(k in x for x in fams):
                    fams.append(k.family())
            if len(fams) > 1 or not fams:
                return NONE
            if any(a in k.methods for k in self.prj.classes):
                return NONE
        r = NONE
        for k, g, v in ss:
            r = join(r, self.t(v, g))
        for how, depth, g, n, v, k in self.aops.get(a, []):
            if c is None or k in (c.family() if c else ()) or k is None and len({s[0] for s in self.stores.get(a, [])}) == 1:
                r = self.grow(r, how, depth, g, n, v)
        return r

    def grown(self, r, key, use, f):
        """what is added to a local or global variable after it was bound"""
        for how, depth, g, n, v in self.ops.get(key, []):
            if use is not None and n.lineno > use.lineno and not self.sameloop(n, use):
                continue
            if any(x is use for x in ast.walk(n)) and how in ("append", "extend", "insert", "item", "aug") and use is not None:
                pass
            r = self.grow(r, how, depth, g, n, v)
        for how, depth, g, n, v in self.ops.get(key, []):
            if how == "sort" and depth == 0 and use is not None and n.lineno < use.lineno and g is f and self.distinct(n, g):
                r = T({"seq" if k == "seqU" else k for k in r.kinds}, r.elem)
        return r

    def sameloop(self, a, b):
        ps = {p for p in parents(a) if isinstance(p, (ast.For, ast.While))}
        return any(p in ps for p in parents(b))

    def grow(self, r, how, depth, g, n, v):
        if how == "sort":
            return r
        vt = self.t(v, g) if v is not None else NONE
        if depth:
            e = elem(r)
            e2 = self.grow(e, how, depth - 1, g, n, v)
            return T(r.kinds, e2) if e2 is not e and e2 is not NONE else r
        if how in ("append", "appendleft", "insert"):
            u = self.inorder(n, g)
            k = r.kinds
            if u:
                k = (k - {"seq"}) | {"seqU"}
            return T(k, join(r.elem, vt) if vt is not NONE else r.elem)
        if how == "extend" or how == "aug" and (r.kinds & {"seq", "seqU"}):
            k = r.kinds
            if vt.unordered() or self.inorder(n, g) and (vt.kinds or how == "extend"):
                k = (k - {"seq"}) | {"seqU"}
            return T(k, join(r.elem, vt.elem) if vt.elem else r.elem)
        if how == "item" or how == "setdefault":
            k = r.kinds
            if self.inorder(n, g) and k & {"map", "mapU"}:
                k = (k - {"map"}) | {"mapU"}
            return T(k, join(r.elem, vt) if vt is not NONE else r.elem)
        if how == "add" and vt is not NONE:
            return T(r.kinds, join(r.elem, vt))
        if how == "update" and vt.unordered() and r.kinds & {"map"} and "mapU" in vt.kinds:
            return T((r.kinds - {"map"}) | {"mapU"}, r.elem)
        return r

    def inorder(self, n, f):
        """the statement runs once for each item of something in arbitrary order; the loop, or None"""
        prev = n
        for p in parents(n):
            if isinstance(p, ast.For) and prev in p.body and self.t(p.iter, f).unordered():
                return p
            if p is f.node:
                return None
            prev = p
        return None

    def distinct(self, call, f):
        """the key of a sort tells different items apart"""
        key = None
        for k in call.keywords:
            if k.arg == "key":
                key = k.value
        if key is None or isinstance(key, ast.Constant):
            return True
        return self.keyok(key, f)

    def keyok(self, key, f):
        if isinstance(key, ast.Lambda) and key.args.args:
            return self.carries(key.body, key.args.args[0].arg, f)
        d = dotted(key) or ""
        if d.split(".")[-1] in ("len", "lower", "upper", "casefold", "hash", "id", "ord") and d != "ord":
            return False
        if isinstance(key, ast.Name):
            g = self.prj.lookup(key.id, f, f.module)
            if isinstance(g, Func) and g.params:
                rs = [n for n in walk_own(g.node, include_lambda=False) if isinstance(n, ast.Return) and n.value is not None]
                ps = [p for p in g.params if p != g.selfname]
                return not rs or not ps or all(self.carries(r.value, ps[0], g) for r in rs)
        if isinstance(key, ast.Attribute) and isinstance(key.value, (ast.Name, ast.Attribute)) and not d.startswith(("operator.", "str.")):
            return d.split(".")[-1] not in ("getSortKey", "get", "index", "count", "find")
        return True

    def carries(self, e, p, f):
        """the value of a key holds the item itself, or may as well"""
        if isinstance(e, ast.Name):
            return True
        if isinstance(e, (ast.Tuple, ast.List)):
            return any(self.carries(x, p, f) for x in e.elts if any(isinstance(y, ast.Name) and y.id == p for y in ast.walk(x)))
        if isinstance(e, ast.Call):
            d = (dotted(e.func) or "").split(".")[-1]
            if d in ("str", "repr", "int", "float", "ord", "tuple", "list", "sorted", "itemgetter", "normalize", "join"):
                return True
            return False
        if isinstance(e, ast.Subscript):
            return isinstance(e.value, ast.Name) and e.value.id == p or not any(isinstance(y, ast.Name) and y.id == p for y in ast.walk(e.slice))
        if isinstance(e, (ast.Compare, ast.BoolOp)):
            return False
        if isinstance(e, ast.UnaryOp):
            return self.carries(e.operand, p, f) and not isinstance(e.op, ast.Not)
        if isinstance(e, ast.BinOp):
            return self.carries(e.left, p, f) or self.carries(e.right, p, f)
        if isinstance(e, ast.IfExp):
            return self.carries(e.body, p, f) and self.carries(e.orelse, p, f)
        return True

    def returns(self, g):
        return self.get(("ret", g), lambda: self._returns(g))

    def _returns(self, g):
        r = NONE
        if isinstance(g.node, ast.Lambda):
            return self.t(g.node.body, g)
        for n in walk_own(g.node, include_lambda=False):
            if isinstance(n, ast.Return) and n.value is not None:
                r = join(r, self.t(n.value, g))
            elif isinstance(n, ast.Yield):
                r = join(r, T(["seqU" if self.inorder(n, g) else "seq"], self.t(n.value, g) if n.value is not None else None))
            elif isinstance(n, ast.YieldFrom):
                v = self.t(n.value, g)
                r = join(r, T(["seqU" if v.unordered() or self.inorder(n, g) else "seq"], v.elem))
        return r

    def call(self, n, f):
        fn = n.func
        e = self.prj.ext_name(fn, f, f.module) or ""
        b = e.split(".")[-1]
        a0 = self.t(n.args[0], f) if n.args else NONE
        if e in ("builtins.set", "builtins.frozenset"):
            return T(["set"], a0.elem)
        if e == "builtins.sorted":
            return T(["seqU" if a0.unordered() and not self.distinct(n, f) else "seq"], a0.elem)
        if b in PASS and (e.startswith("builtins.") or e.split(".")[0] in ("itertools", "collections", "copy")):
            if b in ("copy", "deepcopy"):
                return a0
            src = n.args[1:] if b in ("map", "filter", "takewhile", "dropwhile", "starmap", "filterfalse") else n.args
            u, r = False, NONE
            for a in src:
                x = self.t(a.value if isinstance(a, ast.Starred) else a, f)
                if isinstance(a, ast.Starred) or b == "from_iterable":
                    u |= elem(x).unordered()
                u |= x.unordered()
                r = join(r, elem(x))
            if b == "map":
                r = NONE
                if (dotted(n.args[0]) or "") in ("set", "frozenset"):
                    r = T(["set"])
            return T(["seqU" if u else "seq"], r if r is not NONE and b != "chain" else (r if r is not NONE else None))
        if b in NUMBER and e:
            u = any(self.t(a, f).unordered() for a in n.args)
            return T(["seqU" if u else "seq"])
        if e in ("builtins.sum", "functools.reduce") and n.args:
            x = self.t(n.args[-1] if e.endswith("sum") and len(n.args) == 1 else n.args[0] if e.endswith("sum") else n.args[1] if len(n.args) > 1 else n.args[0], f)
            el = elem(x)
            if el.kinds & {"set"}:
                return el
            if el.kinds & {"seq", "seqU"}:
                return T(["seqU" if x.unordered() or "seqU" in el.kinds else "seq"], el.elem)
            return NONE
        if e in ("builtins.dict", "collections.OrderedDict", "collections.Counter", "builtins.dict.fromkeys"):
            return T(["mapU" if a0.unordered() else "map"], elem(a0) if a0.kinds & {"map", "mapU"} else None)
        if e == "collections.defaultdict":
            k = dotted(n.args[0]) if n.args else None
            el = T(["set"]) if k in ("set", "frozenset") else T(["seq"]) if k == "list" else T(["map"]) if k == "dict" else None
            return T(["map"], el)
        if e in ("builtins.next", "builtins.min", "builtins.max"):
            return elem(a0)
        if e == "builtins.getattr" and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
            c = self.owner(n.args[0], f)
            r = self.get(("attr", n.args[1].value, c), lambda: self.attribute(n.args[1].value, c))
            return join(r, self.t(n.args[2], f)) if len(n.args) > 2 else r
        if e:
            return NONE
        t = None
        if isinstance(fn, ast.Name):
            t = self.prj.lookup(fn.id, f, f.module)
        if isinstance(t, Class):
            return self.ofclass(t)
        if isinstance(fn, ast.Attribute):
            recv = self.t(fn.value, f)
            a = fn.attr
            if recv.kinds:
                if a in SETOPS and "set" in recv.kinds:
                    r = recv
                    for x in n.args:
                        r = join(r, T(["set"], elem(self.t(x, f)) or None))
                    return T(["set"], r.elem)
                if a == "copy":
                    return recv
                if a in ("keys", "items") and recv.kinds & {"map", "mapU"}:
                    return T(["seqU" if "mapU" in recv.kinds else "seq"])
                if a == "values" and recv.kinds & {"map", "mapU"}:
                    return T(["seqU" if "mapU" in recv.kinds else "seq"], recv.elem)
                if a == "most_common":
                    return T(["seqU" if "mapU" in recv.kinds else "seq"])
                if a in ("get", "pop", "setdefault") and recv.kinds & {"map", "mapU"}:
                    r = elem(recv)
                    return join(r, self.t(n.args[1], f)) if len(n.args) > 1 else r
                if a in ("pop", "popleft"):
                    return elem(recv)
            if a == "fromkeys" and dotted(fn.value) == "dict":
                return T(["mapU" if a0.unordered() else "map"])
        gs, exact = self.prj.callees(n, f, f.module)
        r = NONE
        if exact or len(gs) == 1:
            for g in gs:
                if g.name != "__init__":
                    r = join(r, self.returns(g))
        return r


def derived(loop, f):
    """names that vary with the loop's item"""
    names = set(targets(loop.target))
    while True:
        size = len(names)
        for s in loop.body:
            for n in ast.walk(s):
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and n.value is not None:
                    if any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.value)):
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                            names |= set(targets(t))
                elif isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.iter)):
                    names |= set(targets(n.target))
        if len(names) == size:
            return names


def uses(n, names):
    return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n))


def logged(n, f):
    """the value only goes into a log record, a warning or an exception"""
    for p in parents(n):
        if isinstance(p, ast.Raise) or isinstance(p, ast.Assert):
            return True
        if isinstance(p, ast.Call):
            a = (dotted(p.func) or getattr(p.func, "attr", "")).split(".")[-1]
            if a in LOG and isinstance(p.func, (ast.Attribute, ast.Name)) and a != "log" or a.endswith(("Error", "Exception")):
                return True
        if p is f.node or isinstance(p, ast.stmt):
            return isinstance(p, ast.Raise)
    return False


INSENSITIVE = {"set", "frozenset", "sorted", "sum", "any", "all", "len", "min", "max", "Counter", "dict", "bool", "isinstance", "hash"}


def run(prj, fold, rep):
    ty = Types(prj, fold)
    fl = ty.fl
    rep.rule("nothing that is returned, stored, chosen or written takes its order from a set")
    done = set()

    def finding(rule, f, construct, message, node):
        k = (rule, f, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        if k not in done:
            done.add(k)
            rep.finding(rule, f, construct, message, node)

    for f in ty.funcs:
        if f.module.is_script or f.is_lambda:
            continue
        for n in walk_own(f.node, include_lambda=True):
            if isinstance(n, ast.For):
                rep.count("loops")
                t = ty.t(n.iter, f)
                if t.unordered() and library_code(prj, n, f):
                    rep.count("loops_over_unordered")
                    rep.site("%s:%s loop over %s" % (f.module.path, n.lineno, text(n.iter)))
                    loop_body(prj, ty, fl, f, n, finding)
            elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
                rep.count("comprehensions")
            elif isinstance(n, ast.Call):
                if library_code(prj, n, f):
                    call_sink(prj, ty, f, n, finding, rep)
            elif isinstance(n, ast.FormattedValue):
                t = ty.t(n.value, f)
                if t.kinds & {"set", "seqU", "mapU"} and library_code(prj, n, f) and not logged(n, f):
                    finding("text", f, text(n.value), "%s is written into a string in arbitrary order" % text(n.value), n)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) or isinstance(n.left, ast.JoinedStr):
                    for v in n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]:
                        if ty.t(v, f).unordered() and library_code(prj, n, f) and not logged(n, f):
                            finding("text", f, text(v), "%s is written into a string in arbitrary order" % text(v), n)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                t = ty.t(n.value, f)
                if "seqU" in t.kinds and not t.kinds & {"map", "mapU"} and library_code(prj, n, f):
                    if isinstance(n.slice, ast.Slice) and n.slice.lower is None and n.slice.upper is None:
                        continue
                    if single(n, f):
                        continue
                    finding("choice", f, text(n), "which item %s is depends on the order of a set" % text(n), n)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                for tg in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(tg, (ast.Tuple, ast.List)) and ty.t(n.value, f).kinds & {"set", "seqU"} and library_code(prj, n, f) and len(tg.elts) > 1:
                        finding("choice", f, text(n), "the items of %s are told apart by the order of a set" % text(n.value), n)
                    if isinstance(tg, ast.Attribute) and not tg.attr.startswith("_") and "seqU" in ty.t(n.value, f).kinds and library_code(prj, n, f) and f.cls is not None:
                        finding("stored", f, tg.attr, "the list kept in %s is in the order of a set" % text(tg), n)
            elif isinstance(n, ast.Return) and n.value is not None and public(f) and library_code(prj, n, f):
                t = ty.t(n.value, f)
                if "seqU" in t.kinds:
                    finding("returned", f, text(n.value), "%s gives back %s in the order of a set" % (f.qual, text(n.value)), n)
            elif isinstance(n, (ast.Yield, ast.YieldFrom)) and public(f) and library_code(prj, n, f):
                if isinstance(n, ast.YieldFrom) and ty.t(n.value, f).unordered() or ty.inorder(n, f):
                    finding("returned", f, text(n), "%s yields in the order of a set" % f.qual, n)
    rep.count("functions", len([f for f in ty.funcs if not f.module.is_script]))


def public(f):
    g = f
    while g is not None and g is not f.module.main:
        if g.name.startswith("_") and not (g.name.startswith("__") and g.name.endswith("__")):
            return False
        if g.outer is not None and g.outer is not f.module.main:
            return False
        g = g.outer
    return True


def single(n, f):
    """under a test that there is one item only"""
    d = ast.dump(n.value)
    for p in parents(n):
        if isinstance(p, (ast.If, ast.IfExp)):
            for c in ast.walk(p.test):
                if isinstance(c, ast.Compare) and isinstance(c.left, ast.Call) and (dotted(c.left.func) or "") == "len" and c.left.args and ast.dump(c.left.args[0]) == d and \
                        isinstance(c.ops[0], ast.Eq) and isinstance(c.comparators[0], ast.Constant) and c.comparators[0].value == 1:
                    return True
        if p is f.node:
            break
    return False


def call_sink(prj, ty, f, n, finding, rep):
    fn = n.func
    e = prj.ext_name(fn, f, f.module) or ""
    b = e.split(".")[-1]
    a0 = ty.t(n.args[0], f) if n.args else NONE
    if isinstance(fn, ast.Attribute) and fn.attr == "join" and len(n.args) == 1 and not e:
        rep.count("joins")
        if a0.unordered() and not charclass(n):
            if not logged(n, f):
                finding("text", f, text(n.args[0]), "the items of %s are joined in the order of a set" % text(n.args[0]), n)
    elif e in ("builtins.str", "builtins.repr", "builtins.format") and a0.kinds & {"set", "seqU"} and not ownstr(prj, ty, n.args[0], f):
        if not logged(n, f):
            finding("text", f, text(n), "%s is written in the order of a set" % text(n.args[0]), n)
    elif isinstance(fn, ast.Attribute) and fn.attr == "format" and isinstance(fn.value, ast.Constant):
        for a in n.args + [k.value for k in n.keywords]:
            if ty.t(a, f).unordered() and not logged(n, f) and not ownstr(prj, ty, a, f):
                finding("text", f, text(a), "%s is written into a string in arbitrary order" % text(a), n)
    elif e == "builtins.next" and n.args:
        x = n.args[0]
        if a0.unordered() and not guarded_next(x):
            finding("choice", f, text(n), "%s takes whichever item comes first" % text(n), n)
    elif e in ("builtins.min", "builtins.max", "builtins.sorted", "heapq.nsmallest", "heapq.nlargest") or isinstance(fn, ast.Attribute) and fn.attr == "sort":
        for k in n.keywords:
            if k.arg == "key":
                d = (dotted(k.value) or "").split(".")[-1]
                if d in ("hash", "id") or isinstance(k.value, ast.Lambda) and any(isinstance(x, ast.Call) and (dotted(x.func) or "") in ("hash", "id") for x in ast.walk(k.value)):
                    finding("hash", f, text(n), "items are put in the order of their hash or identity", n)
        if b in ("min", "max") and a0.unordered() and len(n.args) == 1 and not ty.distinct(n, f):
            finding("choice", f, text(n), "of items with the same key, %s takes whichever comes first" % text(n), n)
    elif b in NUMBER and e and any(ty.t(a, f).unordered() for a in n.args):
        if b == "enumerate" and counted(n):
            return
        if b == "zip" and len({ast.dump(a.func.value) if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) else ast.dump(a) for a in n.args}) == 1:
            return
        if b == "enumerate" or len(n.args) > 1:
            finding("choice", f, text(n), "items are numbered or paired in the order of a set", n)
    elif isinstance(fn, ast.Attribute) and fn.attr == "pop" and not n.args and ty.t(fn.value, f).kinds == frozenset(["set"]):
        if not isinstance(n._parent, ast.Expr) and not worklist(n, f) and not single(ast.copy_location(ast.Subscript(value=fn.value, slice=ast.Constant(0), ctx=ast.Load(), _parent=n._parent), n), f):
            finding("choice", f, text(n), "%s takes an arbitrary item" % text(n), n)
    elif isinstance(fn, ast.Attribute) and fn.attr in WRITES or b == "print" and e:
        for a in n.args:
            if ty.t(a, f).unordered():
                finding("text", f, text(a), "%s is written in the order of a set" % text(a), n)
    elif e in ("json.dump", "json.dumps") and n.args and a0.unordered():
        if not ("mapU" in a0.kinds and any(k.arg == "sort_keys" and isinstance(k.value, ast.Constant) and k.value.value for k in n.keywords)):
            finding("text", f, text(n.args[0]), "%s is written in arbitrary order" % text(n.args[0]), n)
    elif e == "builtins.hash" and f.name not in ("__hash__", "__eq__"):
        finding("hash", f, text(n), "the value of hash() differs from run to run", n)


def worklist(n, f):
    """while todo: x = todo.pop()"""
    base = ast.dump(n.func.value)
    for p in parents(n):
        if isinstance(p, ast.While):
            return any(ast.dump(x) == base for x in ast.walk(p.test) if isinstance(x, ast.expr))
        if p is f.node:
            return False
    return False


def ownstr(prj, ty, n, f):
    """an object of a class that writes itself"""
    c = None
    if isinstance(n, ast.Name):
        c = prj.self_class(n.id, f)
    return c is not None and (c.find("__str__") or c.find("__repr__"))


def charclass(n):
    """'[' + ''.join(..) + ']': a set of characters in a regular expression"""
    if not (isinstance(n.func.value, ast.Constant) and n.func.value.value == ""):
        return False
    for p in parents(n):
        if isinstance(p, ast.BinOp) and isinstance(p.op, ast.Add):
            ls = [x.value for x in ast.walk(p) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
            if any(x.rstrip("^").endswith("[") for x in ls) and any(x.startswith("]") for x in ls):
                return True
        elif isinstance(p, ast.JoinedStr):
            ls = [x.value for x in p.values if isinstance(x, ast.Constant)]
            return any(x.rstrip("^").endswith("[") for x in ls) and any(x.startswith("]") for x in ls)
        elif not isinstance(p, (ast.FormattedValue,)):
            return False
    return False


def guarded_next(x):
    return False


def counted(n):
    """for i, x in enumerate(s) where i is not used for anything"""
    p = n._parent
    if isinstance(p, ast.For) and isinstance(p.target, ast.Tuple) and isinstance(p.target.elts[0], ast.Name):
        i = p.target.elts[0].id
        return not any(isinstance(x, ast.Name) and x.id == i and isinstance(x.ctx, ast.Load) for s in p.body for x in ast.walk(s))
    return False


def loop_body(prj, ty, fl, f, loop, finding):
    dv = derived(loop, f)
    what = text(loop.iter)
    r = reach(f)
    inside = {x for s in loop.body for x in ast.walk(s)}
    for n in inside:
        if isinstance(n, ast.Return) and n.value is not None and uses(n.value, dv):
            if not unique_test(n, loop, dv):
                finding("choice", f, text(n), "the first suitable item of %s is given back, in the order of a set" % what, n)
        elif isinstance(n, ast.Call):
            fn = n.func
            e = prj.ext_name(fn, f, f.module) or ""
            if e == "builtins.print" or isinstance(fn, ast.Attribute) and fn.attr in ("write", "writelines", "writerow"):
                if not logged(n, f):
                    finding("written", f, text(n), "written in the order of the set %s" % what, n)
            elif isinstance(fn, ast.Name) and fn.id == "write" and not e:
                finding("written", f, text(n), "written in the order of the set %s" % what, n)
            elif e.endswith(".SubElement") and n.args and not uses(n.args[0], dv):
                finding("written", f, text(n), "elements are added in the order of the set %s" % what, n)
            elif isinstance(fn, ast.Attribute) and fn.attr in ("append", "insert", "extend", "appendleft") and not e and not prj.callees(n, f, f.module)[1]:
                base = fn.value
                if uses(base, dv):
                    continue
                if isinstance(base, ast.Name) and (base.id in f.locals or prj.lookup(base.id, f, f.module)) and ty.t(base, f).kinds & {"seq", "seqU"} and base.id not in f.allparams:
                    continue        # a list: judged where it is used
                if isinstance(base, ast.Attribute):
                    if ty.t(base, f).kinds & {"seq", "seqU"} and base.attr.startswith("_"):
                        continue
                if isinstance(base, (ast.Subscript, ast.Call)) and ty.t(base, f).kinds & {"seq", "seqU"}:
                    continue
                if isinstance(base, ast.Name) and base.id in f.allparams and ty.t(base, f).kinds & {"set"}:
                    continue
                finding("written", f, text(n), "%s grows in the order of the set %s" % (text(base), what), n)
            else:
                gs, exact = prj.callees(n, f, f.module)
                if exact or len(gs) == 1:
                    for g in gs:
                        hit = grows(prj, fl, g, n, f, dv)
                        if hit:
                            finding("written", f, text(n.func), "%s adds to %s in the order of the set %s" % (g.qual, hit, what), n)
                            break
        elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name) and stringy(n.value, n.target, f):
            if n.target.id not in inner_defs(loop, n.target.id, n):
                finding("text", f, text(n), "a string is put together in the order of the set %s" % what, n)
    # what the step before left behind
    for st in loop.body:
        if not (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and uses(st.value, dv)):
            continue
        name = st.targets[0].id
        if uses(st.value, {name}):
            continue
        for u, defs in r.use.items():
            if u in inside and u.id == name and u.lineno < st.lineno and any(d[1] is st.value for d in defs) and not in_comp(u) and not logged(u, f):
                finding("choice", f, name, "in each step %s is what came before in the order of the set %s" % (name, what), u)
                break
    # what is left over after the loop
    after = {}
    for u, defs in r.use.items():
        if u in inside or u is loop.iter or not any(p is f.node for p in parents(u)):
            continue
        for d in defs:
            if d[0] == "iter" and d[1] is loop.iter and u.id in targets(loop.target):
                if not in_comp(u) and u.lineno > loop.lineno and u not in set(ast.walk(loop.iter)):
                    after[u.id] = u
            elif d[0] == "expr" and d[1] in inside and uses(d[1], dv) and u.lineno > loop.lineno:
                st = d[1]
                if not uses(st, {u.id}) and outside_def(r, f, u.id, loop, inside):
                    after[u.id] = st
    for name, at in sorted(after.items()):
        if not unconditional(at, loop, dv):
            pass
        finding("choice", f, name, "after the loop %s is whichever item of %s came last or first" % (name, what), at)


def unconditional(at, loop, dv):
    return False


def in_comp(u):
    for p in parents(u):
        for g in getattr(p, "generators", []):
            if u.id in targets(g.target):
                return True
        if isinstance(p, ast.stmt):
            return False
    return False


def outside_def(r, f, name, loop, inside):
    return True


def unique_test(n, loop, dv):
    """if x == const: return ..x.. : only one item can pass"""
    prev = n
    for p in parents(n):
        if p is loop:
            return False
        if isinstance(p, ast.If) and prev in p.body:
            cs = p.test.values if isinstance(p.test, ast.BoolOp) and isinstance(p.test.op, ast.And) else [p.test]
            for c in cs:
                if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], ast.Eq):
                    a, b = c.left, c.comparators[0]
                    for x, y in ((a, b), (b, a)):
                        if isinstance(x, ast.Name) and x.id in targets(loop.target) and not uses(y, dv):
                            return True
        prev = p
    return False


def inner_defs(loop, name, at):
    """the name when it is set afresh in each step before at"""
    for s in loop.body:
        if s.lineno >= at.lineno:
            break
        if isinstance(s, ast.Assign) and any(name in targets(t) for t in s.targets):
            return {name}
    for p in parents(at):
        if p is loop:
            break
        for s in getattr(p, "body", []) if isinstance(p, (ast.For, ast.If, ast.While)) else []:
            if isinstance(s, ast.Assign) and s.lineno < at.lineno and any(name in targets(t) for t in s.targets):
                return {name}
    return set()


def stringy(v, target, f):
    if isinstance(v, ast.JoinedStr) or isinstance(v, ast.Constant) and isinstance(v.value, str):
        return True
    if isinstance(v, ast.BinOp):
        return stringy(v.left, target, f) or stringy(v.right, target, f)
    if isinstance(v, ast.Call):
        return (dotted(v.func) or getattr(v.func, "attr", "")).split(".")[-1] in ("str", "format", "join", "chr", "repr", "lower", "upper")
    for n in walk_own(f.node, include_lambda=False):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == target.id for t in n.targets):
            if isinstance(n.value, ast.Constant) and isinstance(n.value.value, str) or isinstance(n.value, ast.JoinedStr):
                return True
    return False


def grows(prj, fl, g, call, f, dv):
    """something outside the loop that the called function adds to in order"""
    s = fl.sum.get(g)
    if s is None:
        return None
    b = bind(call, g, not (g.cls is None))
    for t, (h, at) in s.struct.items():
        if not (isinstance(at, ast.Call) and isinstance(at.func, ast.Attribute) and at.func.attr in ("append", "insert", "extend", "SubElement")):
            continue
        if t[0] != "p":
            continue
        if t[1] == g.selfname and g.cls is not None and isinstance(call.func, ast.Attribute):
            a = call.func.value
        else:
            a = b.get(t[1])
        if not isinstance(a, ast.AST) or uses(a, dv):
            continue
        if isinstance(a, ast.Name) and t[-1] == () and fl.vals.get(a) and all(x[0] == "n" for x in fl.vals.get(a)):
            continue
        if isinstance(a, (ast.Name, ast.Attribute)):
            return text(a) + "".join("[]" if x == "*" else "." + x for x in t[-1])
    return None


def ex(name, body, want, pre="import itertools\n", sig="words, out"):
    return (name, {"lib/sldr/a.py": pre + "def f(%s):\n" % sig + "".join("    " + l + "\n" for l in body.split("\n"))}, want)


EXAMPLES = [
 ex("list of a set", "return list(set(words))", ["returned"]),
 ex("sorted set", "return sorted(set(words))", False),
 ex("set", "return set(words)", False),
 ex("join", "s = {w.lower() for w in words}\nreturn ' '.join(s)", ["text"]),
 ex("join sorted", "s = {w.lower() for w in words}\nreturn ' '.join(sorted(s))", False),
 ex("join of a comprehension", "s = set(words)\nreturn ' '.join(w.upper() for w in s)", ["text"]),
 ex("written", "for w in set(words):\n    out.write(w)", ["written"]),
 ex("written sorted", "for w in sorted(set(words)):\n    out.write(w)", False),
 ex("counted", "n = 0\nfor w in set(words):\n    n += len(w)\nreturn n", False),
 ex("into another set", "r = set()\nfor w in set(words):\n    r.add(w)\nreturn r", False),
 ex("append", "r = []\nfor w in set(words):\n    r.append(w)\nreturn r", ["returned"]),
 ex("append, then sort", "r = []\nfor w in set(words):\n    r.append(w)\nr.sort()\nreturn r", False),
 ex("append, then sort by length", "r = []\nfor w in set(words):\n    r.append(w)\nr.sort(key=len)\nreturn r", ["returned"]),
 ex("sorted by length", "return sorted(set(words), key=len)", ["returned"]),
 ex("sorted by length and word", "return sorted(set(words), key=lambda w: (len(w), w))", False),
 ex("sorted by table", "return sorted(set(words), key=lambda w: out[w])", ["returned"]),
 ex("first", "for w in set(words):\n    if w.startswith('a'):\n        return w\nreturn None", ["choice"]),
 ex("any", "for w in set(words):\n    if w.startswith('a'):\n        return True\nreturn False", False),
 ex("last", "b = None\nfor w in set(words):\n    if w.startswith('a'):\n        b = w\nreturn b", ["choice"]),
 ex("next", "return next(iter(set(words)))", ["choice"]),
 ex("pop", "s = set(words)\nx = s.pop()\nreturn x", ["choice"]),
 ex("index", "return list(set(words))[0]", ["choice"]),
 ex("unpacked", "a, b = set(words)\nreturn a", ["choice"]),
 ex("longest", "return max(set(words), key=len)", ["choice"]),
 ex("greatest", "return max(set(words))", False),
 ex("difference of keys", "return [k for k in words.keys() - out.keys()]", ["returned"]),
 ex("numbered", "return {w: i for i, w in enumerate(set(words))}", ["choice"]),
 ex("mapping in the order of a set", "d = {}\nfor w in set(words):\n    d[w] = 1\nreturn ','.join(d)", ["text"]),
 ex("mapping sorted", "d = {}\nfor w in set(words):\n    d[w] = 1\nreturn ','.join(sorted(d))", False),
 ex("ordinary mapping", "d = {}\nfor w in words:\n    d[w] = 1\nreturn ','.join(d)", False),
 ex("sets in a mapping", "d = {}\nfor w in words:\n    d.setdefault(len(w), set()).add(w)\nfor k, v in sorted(d.items()):\n    out.write(' '.join(v))", ["text"]),
 ex("string", "r = ''\nfor w in set(words):\n    r += w\nreturn r", ["text"]),
 ex("formatted", "return f'{set(words)}'", ["text"]),
 ex("logged", "import logging\ns = set(words)\nlogging.getLogger(__name__).warning('x %s' % s)\nreturn len(s)", False),
 ex("hash as key", "return sorted(words, key=hash)", ["hash"]),
 ex("element children", "for w in set(words):\n    out.append(w)", ["written"]),
 ex("own list of the item", "for w in set(words):\n    w.items.append(1)", False),
 ex("private helper, sorted by the caller", "return sorted(_g(words))", False, "def _g(words):\n    return [w for w in set(words)]\n"),
 ex("private helper, used as it is", "return [x for x in _g(words)]", ["returned"], "def _g(words):\n    return [w for w in set(words)]\n"),
 ex("passed as an argument", "return g(set(words))", ["text"], "def g(ws):\n    return ''.join(w for w in ws)\n"),
 ex("the one before", "p = None\nr = {}\nfor w in set(words):\n    r[w] = p\n    p = w\nreturn r", ["choice"]),
 ex("the one before, sorted", "p = None\nr = {}\nfor w in sorted(set(words)):\n    r[w] = p\n    p = w\nreturn r", False),
 ex("set afresh", "r = {}\nfor w in set(words):\n    p = w.lower()\n    r[w] = p\nreturn r", False),
 ex("character class", "import re\nreturn re.compile('[' + ''.join(set(words)) + ']')", False),
 ex("rebound", "s = set(words)\ns = sorted(s)\nreturn ' '.join(s)", False),
 ("field", {"lib/sldr/a.py": "class A:\n    def __init__(self):\n        self._w = set()\n    def add(self, x):\n        self._w.add(x)\n    def get(self):\n        return ' '.join(self._w)\n"}, ["text"]),
 ("field sorted", {"lib/sldr/a.py": "class A:\n    def __init__(self):\n        self._w = set()\n    def add(self, x):\n        self._w.add(x)\n    def get(self):\n        return ' '.join(sorted(self._w))\n"}, False),
 ("adds to a document", {"lib/sldr/a.py": "class A:\n    def __init__(self):\n        self.l = []\n    def add(self, x):\n        self.l.append(x)\n    def f(self, ws):\n        for w in set(ws):\n            self.add(w)\n"}, ["written"]),
]
