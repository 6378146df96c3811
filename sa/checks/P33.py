"""P33: what a document carries is kept when it is read, copied, taken over and written."""
import ast
from ..core import text, walk_own, parents, bind
from ..paths import Paths, State, TooMany, PURE
from ..reach import reach
from ..noret import noreturn

TECHNIQUE = "path-sensitive must-write analysis of the writer, the copier and the reader: on every path each thing an element carries is passed on or known to be absent, over reaching definitions"
NOTE = ("What an element carries is its tag, text, attributes and children, and what the reader stores on it (comments) or works out while reading (fingerprints, alternates). "
        "Text between children is not kept by design. What the values look like when written is P01's concern.")

CORE = ("tag", "text", "attrib", "children")
CASE = {"lower", "upper", "casefold", "title", "capitalize", "swapcase"}
READ = {"items", "keys", "get", "values"}


def const_tuple(n):
    if isinstance(n, (ast.Tuple, ast.List, ast.Set)) and n.elts and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in n.elts):
        return {x.value for x in n.elts}
    return None


class Fields:
    """what of an element an expression comes from"""
    def __init__(self, prj, fold, f, node, depth=6):
        self.prj, self.fold, self.f, self.node = prj, fold, f, node
        self.r = reach(f)
        self.extra = {}
        self.lossy = CASE
        self.given = {}             # parameters that are given a name
        self.held = {}              # what was put in a list on the path looked at
        self.mask = frozenset()     # names that hold nothing on the path looked at
        self.elems = True           # does one of several things count for all of them?
        # a dictionary filled by a helper that is given the attributes
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                gs = prj.callees(n, f, f.module)[0]
                args = n.args + [k.value for k in n.keywords]
                if gs:
                    fs = set().union(*[self.of(a) for a in args]) if args else set()
                    if fs:
                        for a in args:
                            if isinstance(a, ast.Name) and a.id != node and a.id in f.locals and not self.of(a):
                                self.extra.setdefault(a.id, set()).update(fs)
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                        fs = self.of(n.value)
                        if fs:
                            self.extra.setdefault(t.value.id, set()).update(fs)

    def isnode(self, n, depth=4):
        if not isinstance(n, ast.Name) or depth <= 0:
            return False
        ds = self.r.use.get(n)
        if ds is None:
            return False
        for d in ds:
            if d[0] == "param" and d[1] == self.node:
                return True
            if d[0] == "expr" and isinstance(d[1], ast.Name) and self.isnode(d[1], depth - 1):
                return True
            if d[0] == "expr" and isinstance(d[1], (ast.IfExp, ast.BoolOp)) and any(self.isnode(x, depth - 1) for x in ast.iter_child_nodes(d[1])):
                return True
        return False

    def names(self, n, depth=3):
        """constant attribute names a name in a getattr stands for"""
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            return {n.value}
        if isinstance(n, ast.Name) and n.id in self.given:
            return self.given[n.id]
        if isinstance(n, ast.Name):
            for d in self.r.use.get(n, ()):
                if d[0] == "iter":
                    ts = const_tuple(d[1])
                    if ts is None and isinstance(d[1], (ast.Name, ast.Attribute)):
                        v = self.fold.value(d[1], self.f)
                        ts = set(v) if isinstance(v, (tuple, list, set, frozenset)) and all(isinstance(x, str) for x in v) else None
                    return ts or set()
        return set()

    def of(self, n, depth=6, whole=True):
        """fields of the node; whole: only if nothing was cut off"""
        if n is None or depth <= 0:
            return set()
        if isinstance(n, ast.Name):
            if n.id in self.mask and not self.isnode(n):      # what it holds is known on this path
                return self.held.get(n.id, set()) | set(self.extra.get(n.id, ()))
            res = set(self.extra.get(n.id, ())) | self.held.get(n.id, set())
            if self.isnode(n):
                return res
            for d in self.r.use.get(n, ()):
                if d[0] == "iter" and not self.elems:
                    continue
                if d[0] == "iter":
                    res |= {"children"} if self.isnode(d[1]) else self.of(d[1], depth - 1)
                elif d[0] in ("expr", "unpack") and isinstance(d[1], ast.AST):
                    res |= self.of(d[1], depth - 1)
                elif d[0] == "aug":
                    res |= self.of(d[1].value, depth - 1)
            return res
        if isinstance(n, ast.Attribute):
            if self.isnode(n.value):
                return {n.attr} if n.attr not in READ else {"attrib"}
            return self.of(n.value, depth) - {"children"}
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ("getattr", "hasattr") and len(n.args) > 1 and self.isnode(n.args[0]):
                return self.names(n.args[1])
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "len", "iter", "enumerate", "sorted", "reversed", "bool") and n.args and self.isnode(n.args[0]):
                return {"children"}
            if isinstance(n.func, ast.Attribute) and n.func.attr in self.lossy:
                return set()
            res = set()
            for g in self.prj.callees(n, self.f, self.f.module)[0]:
                if self.cuts(g):
                    return res
            for c in [n.func.value] if isinstance(n.func, ast.Attribute) else []:
                res |= self.of(c, depth)
                if isinstance(n.func, ast.Attribute) and n.func.attr in READ and self.isnode(n.func.value):
                    res.add("attrib")
            for a in n.args + [k.value for k in n.keywords]:
                res |= self.of(a, depth)
            return res
        if isinstance(n, ast.Subscript):
            s = n.slice
            if isinstance(s, ast.Slice):
                if s.lower is not None or s.upper is not None:
                    return set()
                return {"children"} if self.isnode(n.value) else self.of(n.value, depth)
            if self.isnode(n.value) or not self.elems or isinstance(s, ast.Constant) or isinstance(s, ast.UnaryOp):
                return set()        # one of them only
            return self.of(n.value, depth) | self.of(s, depth)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            if any(g.ifs for g in n.generators):
                return set()
            res = set()
            for g in n.generators:
                res |= {"children"} if self.isnode(g.iter) else self.of(g.iter, depth)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                res |= self.of(x, depth)
            return res
        if isinstance(n, (ast.Lambda, ast.Constant)):
            return set()
        if isinstance(n, ast.IfExp):
            return (self.of(n.body, depth) | self.absent(n.test, True)) & (self.of(n.orelse, depth) | self.absent(n.test, False))
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.And):
            return set.intersection(self.of(n.values[-1], depth), *[self.of(v, depth) | self.absent(v, False) for v in n.values[:-1]])
        res = set()
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.expr, ast.FormattedValue, ast.keyword)):
                res |= self.of(c.value if isinstance(c, ast.keyword) else c, depth)
        return res

    def cuts(self, g):
        """does the function return only some of what it is given?"""
        for n in walk_own(g.node):
            if isinstance(n, ast.Return) and n.value is not None:
                for x in ast.walk(n.value):
                    if isinstance(x, ast.comprehension) and x.ifs or isinstance(x, ast.Slice) and (x.lower is not None or x.upper is not None):
                        return True
        return False

    def absent(self, e, pol):
        """fields that a test says are not there"""
        old, self.elems = self.elems, False
        try:
            return self.absent1(e, pol)
        finally:
            self.elems = old

    def absent1(self, e, pol):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.absent1(e.operand, not pol)
        if isinstance(e, ast.BoolOp):
            sets = [self.absent1(v, pol) for v in e.values]
            return set().union(*sets) if pol == isinstance(e.op, ast.And) else set.intersection(*sets)
        if isinstance(e, ast.NamedExpr):
            return self.absent1(e.value, pol)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant):
            c, op = e.comparators[0].value, e.ops[0]
            if c is None and (isinstance(op, (ast.Is, ast.Eq)) and pol or isinstance(op, (ast.IsNot, ast.NotEq)) and not pol):
                return self.of(e.left)
            if isinstance(c, int) and self.length(e.left):
                z = {ast.Gt: 0 > c, ast.GtE: 0 >= c, ast.Eq: 0 == c, ast.NotEq: 0 != c, ast.Lt: 0 < c, ast.LtE: 0 <= c}.get(type(op))
                one = {ast.Gt: 1 > c, ast.GtE: 1 >= c, ast.Eq: 1 == c, ast.NotEq: 1 != c, ast.Lt: 1 < c, ast.LtE: 1 <= c}.get(type(op))
                if z == pol and one != pol:
                    return self.of(e.left)
            if c == "" and (isinstance(op, ast.Eq) and pol or isinstance(op, ast.NotEq) and not pol):
                return self.of(e.left)
            return set()
        if isinstance(e, ast.Compare):
            # while i < len(...)
            return self.of(e.comparators[0]) if not pol and isinstance(e.ops[0], (ast.Lt, ast.NotEq)) and self.length(e.comparators[0]) else set()
        if not pol:
            if isinstance(e, ast.Name) and self.isnode(e):
                return set()
            if isinstance(e, ast.Call) and not (isinstance(e.func, ast.Name) and e.func.id in ("getattr", "hasattr", "len", "bool", "list", "dict", "any")
                                                or isinstance(e.func, ast.Attribute) and e.func.attr in ("get", "items", "keys", "values", "strip")):
                return set()
            if isinstance(e, ast.Compare):
                return set()
            return self.of(e)
        return set()

    def length(self, e):
        if isinstance(e, ast.Name):
            ds = [d for d in self.r.use.get(e, ())]
            return bool(ds) and all(d[0] == "expr" and isinstance(d[1], ast.Call) and self.length(d[1]) for d in ds)
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len"

    def children(self, e, pol):
        """does the test say that there are children?"""
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and isinstance(e.comparators[0].value, int):
            return "children" in self.of(e.left) and not self.absent(e, pol) and bool(self.absent(e, not pol))
        return pol and not isinstance(e, ast.Compare) and "children" in self.of(e)


class Must(Paths):
    """flags: ('w', field) passed on, ('no', field) known to be absent"""
    CAP = 600

    def __init__(self, chk, f, fld, call=None, keep=None, after=None):
        self.chk, self.fld, self.f, self.after = chk, fld, f, after
        self.keep = keep
        super().__init__(f, on_call=call, on_fact=self.fact, noreturn=noreturn(chk.prj, f))

    def fact(self, e, pol):
        add = {("no", x) for x in self.fld.absent(e, pol)}
        if self.fld.children(e, pol):
            add.add(("no", "text"))
        return (add, ()) if add else None

    def expr(self, n, sts):
        sts = super().expr(n, sts)
        if self.after and isinstance(n, ast.Call) and sts:
            res = []
            for s in sts:
                self.path(s)
                add = {("w", x) for x in self.after(n)}
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "add") and isinstance(n.func.value, ast.Name) and not self.fld.isnode(n.func.value):
                    add |= {("v", n.func.value.id, x) for a in n.args for x in self.fld.of(a) - {"children"}}
                self.path(None)
                res += self.apply([s], (add, ())) if add else [s]
            return self.dedupe(res)
        return sts

    def path(self, s):
        """what is known on a path about the variables"""
        held = {}
        for x in s.flags if s else ():
            if x[0] == "v":
                held.setdefault(x[1], set()).add(x[2])
        self.fld.held, self.fld.mask = held, frozenset(x[1] for x in s.flags if x[0] == "e") if s else frozenset()

    def known(self, sts, name, value, drop, add=frozenset()):
        res = []
        for s in sts:
            self.path(s)
            fs = {("v", name, x) for x in self.fld.of(value)}
            self.path(None)
            res += self.apply([s], (fs | add, drop - fs))
        return res

    def store(self, t, value, stmt, sts):
        sts = super().store(t, value, stmt, sts)
        h = getattr(stmt, "_parent", None)
        if isinstance(h, ast.ExceptHandler) and h.type is not None and "AttributeError" in text(h.type):
            # the attribute asked for is not there
            gone = {x.attr for b in h._parent.body for x in ast.walk(b) if isinstance(x, ast.Attribute) and self.fld.isnode(x.value)}
            sts = self.apply(sts, ({("no", x) for x in gone}, ()))
        if self.after and isinstance(t, ast.Name) and t.id != self.fld.node:
            if isinstance(stmt, ast.AugAssign):
                if isinstance(stmt.value, ast.expr):
                    sts = self.known(sts, t.id, stmt.value, set())
            else:
                drop = {x for st in sts for x in st.flags if x[0] == "v" and x[1] == t.id} | {("e", t.id)}
                if isinstance(value, ast.expr) and isinstance(stmt, (ast.Assign, ast.NamedExpr)):
                    sts = self.known(sts, t.id, value, drop, {("e", t.id)})
                else:
                    sts = self.apply(sts, ((), drop))
        if self.keep:
            add = self.keep(t, value, stmt)
            if add:
                sts = self.apply(sts, ({("w", x) for x in add}, ()))
        return sts


class Check:
    def __init__(self, prj, fold, rep):
        self.prj, self.fold, self.rep = prj, fold, rep
        self.funcs = [f for f in prj.funcs if not f.is_lambda and not isinstance(f.node, ast.Module) and not f.module.is_script]
        self.readers = [f for f in self.funcs if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "iterparse" for n in walk_own(f.node))]
        self.content = self.stored_content()
        self.derived = self.stored_derived()

    # -- what the reader stores
    def pendings(self, f):
        """local lists that are collected and stored on elements: name -> fields"""
        apps = {n.func.value.id for n in walk_own(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend")
                and isinstance(n.func.value, ast.Name)} | {n.target.id for n in walk_own(f.node) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
        res = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute):
                        v = self.plain(n.value)
                        while isinstance(v, ast.Name) and v.id not in apps:
                            ds = list(reach(f).use.get(v, ()))
                            v = self.plain(ds[0][1]) if len(ds) == 1 and ds[0][0] == "expr" and isinstance(ds[0][1], ast.Name) else None
                        if isinstance(v, ast.Name) and v.id in apps and not (isinstance(t.value, ast.Name) and t.value.id == f.selfname):
                            res.setdefault(v.id, set()).add(t.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3:
                v = self.plain(n.args[2])
                if isinstance(v, ast.Name) and v.id in apps and isinstance(n.args[1], ast.Constant):
                    res.setdefault(v.id, set()).add(n.args[1].value)
        return res

    def plain(self, n):
        while True:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple") and len(n.args) == 1:
                n = n.args[0]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                n = n.func.value
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.lower is None and n.slice.upper is None:
                n = n.value
            else:
                return n

    def stored_content(self):
        res = set()
        for f in self.readers:
            for fs in self.pendings(f).values():
                res |= fs
        return res

    def stored_derived(self):
        """other things put on elements while a document is being read that are asked for elsewhere"""
        seen, todo = set(), list(self.readers)
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            for n in walk_own(f.node):
                if isinstance(n, ast.Call):
                    fs, exact = self.prj.callees(n, f, f.module)
                    todo += [g for g in fs if exact and not g.is_lambda]
        put = {}
        for f in seen:
            if not any(f.module is g.module for g in self.readers):
                continue
            for n in walk_own(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, (ast.Name, ast.Subscript)):
                    v = n.value
                    if isinstance(v, ast.Name) and (v.id in (f.selfname, "cls") or self.prj.resolve_class(v, f.module, f) is not None):
                        continue
                    put.setdefault(n.attr, set()).add(f)
        used = {}
        for f in self.funcs:
            for n in walk_own(f.node):
                a = None
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    a = n.attr
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "hasattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    a = n.args[1].value
                if a in put and f not in put[a]:
                    used.setdefault(a, set()).add(f)
        return {a for a in used if a not in ("text", "tail", "tag", "attrib")} - self.content

    def reader(self, f):
        pend = self.pendings(f)
        for L, fields in pend.items():
            self.rep.count("collected lists")
            self.rep.site("%s %s: %s is kept in %s" % (f.module.path, f.qual, L, ", ".join(sorted(fields))))
            lost = []
            chk, r = self, reach(f)

            def same(n, depth=3):
                n = chk.plain(n)
                if not isinstance(n, ast.Name) or not depth:
                    return False
                ds = r.use.get(n, ())
                return n.id == L or bool(ds) and all(d[0] == "expr" and isinstance(d[1], ast.AST) and same(d[1], depth - 1) for d in ds)

            class Pend(Paths):
                CAP = 600

                def store(self, t, value, stmt, sts):
                    if isinstance(t, ast.Name) and t.id == L and not isinstance(stmt, ast.AugAssign):
                        if any(("p",) in s.flags for s in sts):
                            lost.append((stmt, "is emptied while it holds comments that no element was given"))
                        return super().store(t, value, stmt, self.apply(sts, ((), {("p",)})))
                    sts = super().store(t, value, stmt, sts)
                    if isinstance(t, ast.Name) and t.id == L:
                        return self.apply(sts, ({("p",)}, ()))
                    if isinstance(t, ast.Attribute) and isinstance(value, ast.AST):
                        if same(value):
                            sts = self.apply(sts, ((), {("p",)}))
                    return sts

            def call(n):
                if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == L:
                    if n.func.attr in ("append", "extend"):
                        return {("p",)}, ()
                    if n.func.attr == "clear":
                        return None
                if isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3:
                    if same(n.args[2]):
                        return (), {("p",)}
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("extend", "append") and any(isinstance(a, ast.Name) and a.id == L for a in n.args):
                    return (), {("p",)}
                return None

            def fact(e, pol):
                x = e.args[0] if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("len", "bool") and len(e.args) == 1 else e
                if isinstance(x, ast.Name) and same(x) and not pol:
                    return (), {("p",)}
                return None

            def see(n, sts):
                if isinstance(n.func, ast.Attribute) and n.func.attr == "clear" and isinstance(n.func.value, ast.Name) and n.func.value.id == L and any(("p",) in s.flags for s in sts):
                    lost.append((n, "is emptied while it holds comments that no element was given"))
            w = Pend(f, on_call=call, on_fact=fact, at_call=see, noreturn=noreturn(self.prj, f))
            try:
                fall, out = w.run(f.body)
            except TooMany:
                self.rep.note("not decided, too many paths: %s" % f.qual)
                continue
            done = set()
            for s, m in lost:
                if id(s) not in done:
                    done.add(id(s))
                    self.rep.finding("lost", f, text(s, 60), "%s %s" % (L, m), s)
            for s in fall + out["ret"]:
                if ("p",) in s.flags:
                    self.rep.finding("lost", f, "%s at the end" % L, "the document may end while %s still holds comments, which no element is given" % L, f.node)
                    break
        self.markers(f)
        self.collected(f, pend)
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == "CommentHandler":
                for g in self.funcs:
                    if isinstance(n.value, ast.Name) and g.name == n.value.id and g.outer is f:
                        self.handler(g)

    def handler(self, g):
        """the parser's comments are passed on"""
        data = [p for p in g.params if p != g.selfname][-1:]
        self.rep.count("comment handlers")

        def call(n):
            return ({("w",)}, ()) if any(isinstance(x, ast.Name) and x.id in data for a in n.args for x in ast.walk(a)) and (not isinstance(n.func, ast.Attribute) or n.func.attr not in PURE) else None
        try:
            fall, out = Paths(g, on_call=call, noreturn=noreturn(self.prj, g)).run(g.body)
        except TooMany:
            return
        if any(("w",) not in s.flags for s in fall + out["ret"]):
            self.rep.finding("lost", g, "comment handler", "on some path a comment of the document is not passed on", g.node)

    def collected(self, f, pend):
        """each comment the reader meets goes into the list"""
        for loop in walk_own(f.node):
            if not (isinstance(loop, ast.For) and any(isinstance(x, ast.Attribute) and x.attr == "iterparse" for x in ast.walk(loop.iter))):
                continue
            names = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}

            def fact(e, pol):
                if any(self.istag(e, x, pol) for x in names):
                    return {("mk",)}, ()
                if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value == "start" and isinstance(e.left, ast.Name) and e.left.id in names:
                    return ({("st",)}, ()) if isinstance(e.ops[0], (ast.Eq, ast.Is)) == pol else None
                return None

            def call(n):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert") and isinstance(n.func.value, ast.Name) and n.func.value.id in pend:
                    return {("app",)}, ()
                if any(isinstance(a, ast.Name) and a.id in pend for a in n.args) and not isinstance(n.func, ast.Name):
                    return {("app",)}, ()

            def store(t, value, stmt):
                return ({("app",)}, ()) if isinstance(t, ast.Name) and t.id in pend and (isinstance(stmt, ast.AugAssign) or isinstance(value, (ast.BinOp, ast.Call))) else None
            out = {"cont": [], "brk": [], "ret": []}
            try:
                sts = Paths(f, on_call=call, on_fact=fact, on_store=store, noreturn=noreturn(self.prj, f)).block(loop.body, [State(frozenset(), {})], out)
            except TooMany:
                continue
            bad = [("st",) in s.flags for s in sts + out["cont"] + out["brk"] if ("mk",) in s.flags and ("app",) not in s.flags]
            if True in bad and False in bad:
                self.rep.finding("lost", f, "comment not collected", "on some path a comment of the document is not collected", loop)

    def istag(self, c, x, pol):
        """does the test say that the tag of x is not a name (the reader's own marker)?"""
        if not (isinstance(c, ast.Compare) and len(c.ops) == 1):
            return False
        sides = [c.left, c.comparators[0]]
        k = next((s.value for s in sides if isinstance(s, ast.Constant) and isinstance(s.value, str)), None)
        tag = next((s for s in sides if isinstance(s, ast.Attribute) and s.attr == "tag" and isinstance(s.value, ast.Name) and s.value.id == x), None)
        if not k or tag is None or k[0].isalpha() or k[0] == "{":
            return False
        return isinstance(c.ops[0], (ast.Eq, ast.Is)) and pol or isinstance(c.ops[0], (ast.NotEq, ast.IsNot)) and not pol

    def markers(self, f):
        """what is taken out of the tree while reading, markers for comments, may be followed by text"""
        outs = [n for n in walk_own(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "remove" and len(n.args) == 1 and isinstance(n.args[0], ast.Name)]
        chk, found = self, set()
        for x in {n.args[0].id for n in outs}:
            class Mark(Paths):
                CAP = 600

                def store(self, t, value, stmt, sts):
                    sts = super().store(t, value, stmt, sts)
                    return self.apply(sts, ((), {("mk",)})) if isinstance(t, ast.Name) and t.id == x else sts

            def see(n, sts):
                if n in outs and n.args[0].id == x and any(("mk",) in s.flags for s in sts):
                    found.add(n)
            try:
                Mark(f, on_fact=lambda e, pol: ({("mk",)}, ()) if chk.istag(e, x, pol) else None, at_call=see, noreturn=noreturn(self.prj, f)).run(f.body)
            except TooMany:
                self.rep.note("not decided, too many paths: %s" % f.qual)
        for n in outs:
            x = n.args[0].id
            loop = next((p for p in parents(n) if isinstance(p, ast.For) and isinstance(p.target, ast.Name) and p.target.id == x), None)
            if n not in found and not (loop is not None and any(self.istag(c, v.id, True) for g in ast.walk(loop.iter) if isinstance(g, ast.comprehension) and isinstance(g.target, ast.Name)
                                                                for v in [g.target] for t in g.ifs for c in ast.walk(t))):
                continue
            self.rep.count("markers taken out")
            scope = loop or next((p for p in parents(n) if isinstance(p, (ast.For, ast.While))), f.node)
            if not any(isinstance(y, ast.Attribute) and y.attr == "tail" and isinstance(y.value, ast.Name) and y.value.id == x and isinstance(y.ctx, ast.Load) for y in ast.walk(scope)) \
                    and not self.tailhelper(scope, x, f):
                self.rep.finding("text-lost", f, text(n, 60), "%s is taken out of the tree with the text that follows it (its tail)" % x, n)

    def tailhelper(self, scope, x, f):
        for c in ast.walk(scope):
            if isinstance(c, ast.Call) and any(isinstance(a, ast.Name) and a.id == x for a in c.args):
                for g in self.prj.callees(c, f, f.module)[0]:
                    if any(isinstance(y, ast.Attribute) and y.attr == "tail" and isinstance(y.ctx, ast.Load) for y in walk_own(g.node)):
                        return True
        return False

    # -- the writer
    def writers(self):
        """functions that write an element with a function they are given, and call themselves for its children, perhaps through a helper"""
        for f in self.funcs:
            for w in sorted({n.func.id for n in walk_own(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in f.params}):
                node = self.recursion(f, f, w, 3)
                if node:
                    yield f, w, node
                    break

    def recursion(self, f, g, w, depth):
        """the parameter of f that gets a child, where g or what it calls does so"""
        for n in walk_own(g.node):
            if not isinstance(n, ast.Call) or not any(isinstance(a, ast.Name) and a.id == w for a in n.args + [k.value for k in n.keywords]):
                continue
            if isinstance(n.func, ast.Attribute) and n.func.attr == f.name:
                node = self.node_arg(n, f, g)
                if node:
                    return node
            elif depth:
                for h in self.prj.callees(n, g, g.module)[0]:
                    hw = next((p for p, v in bind(n, h).items() if isinstance(v, ast.Name) and v.id == w), None)
                    node = hw and h is not g and self.recursion(f, h, hw, depth - 1)
                    if node:
                        return node
        return None

    def node_arg(self, call, f, g):
        """the parameter that gets the child"""
        for p, v in bind(call, f).items():
            if isinstance(v, ast.Name) and any(isinstance(d, tuple) and d[0] == "iter" for d in reach(g).use.get(v, ())):
                return p
        return None

    def writer(self, f, w, node):
        fld = Fields(self.prj, self.fold, f, node)
        chk = self

        self.judge(f, fld, self.must(f, fld, w, f), set(CORE) | self.content, "written", "not-written")
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                for g in self.prj.callees(n, f, f.module)[0]:
                    self.transfer(g, n, f, fld)

    def must(self, f, fld, w, top, depth=3):
        """what is written on every path of a function that is given the write function w"""
        chk = self

        def after(n):
            args = n.args + [k.value for k in n.keywords]
            if isinstance(n.func, ast.Name) and n.func.id == w:
                return set().union(*[fld.of(a) for a in n.args]) - {"children"} if n.args else set()
            if isinstance(n.func, ast.Name):
                for d in fld.r.use.get(n.func, ()):
                    if d[0] == "expr" and isinstance(d[1], ast.Lambda) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == w for x in ast.walk(d[1].body)):
                        return set().union(*[fld.of(a) for a in args]) - {"children"} if args else set()
            gs = chk.prj.callees(n, f, f.module)[0]
            if top in gs or isinstance(n.func, ast.Attribute) and n.func.attr == top.name:
                return {"children"} if any("children" in fld.of(a) for a in args) else set()
            if not any(isinstance(a, ast.Name) and a.id == w for a in args) or not gs:
                return set()
            sets = []
            for g in gs:
                b = bind(n, g)
                gw = next((p for p, v in b.items() if isinstance(v, ast.Name) and v.id == w), None)
                gn = next((p for p, v in b.items() if isinstance(v, ast.Name) and fld.isnode(v)), None)
                fs = set().union(*[fld.of(a) for a in args]) - {"children"}
                if gw and gn and depth:
                    gf = Fields(chk.prj, chk.fold, g, gn)
                    for p, v in b.items():
                        if isinstance(v, ast.Constant) and isinstance(v.value, str):
                            gf.given[p] = {v.value}
                    try:
                        fall, out = chk.must(g, gf, gw, top, depth - 1).run(g.body)
                    except TooMany:
                        sets.append(fs | set(CORE) | chk.content)
                        continue
                    ends = fall + out["ret"]
                    fs = fs | {x for x in set(CORE) | chk.content if all(("w", x) in s.flags or ("no", x) in s.flags for s in ends)}
                sets.append(fs)
            return set.intersection(*sets)
        return Must(self, f, fld, after=after)

    def judge(self, f, fld, w, need, verb, rule):
        self.rep.count("functions judged")
        self.rep.site("%s %s: %s must be %s on every path" % (f.module.path, f.qual, ", ".join(sorted(need)), verb))
        try:
            fall, out = w.run(f.body)
        except TooMany:
            self.rep.note("not decided, too many paths: %s" % f.qual)
            return
        for x in sorted(need):
            self.rep.count("obligations")
            bad = [s for s in fall + out["ret"] if ("w", x) not in s.flags and ("no", x) not in s.flags]
            if bad:
                self.rep.finding(rule, f, x, "on some path the %s of an element %s not %s%s" % (x, "are" if x.endswith("s") or x == "children" else "is", verb, self.trail(bad[0])), f.node)

    def trail(self, s):
        t = [(l, p) for l, p in s.trail if l]
        return " (tests: %s)" % ", ".join("line %d %s" % (l, "true" if p else "false") for l, p in t[:6]) if t else ""

    def transfer(self, g, call, f, fld):
        """a helper that moves the attributes into another dictionary moves each of them"""
        b = bind(call, g)
        src = [p for p, v in b.items() if "attrib" in fld.of(v) and not (isinstance(v, ast.Name) and v.id in fld.extra)]
        dst = [p for p, v in b.items() if isinstance(v, ast.Name) and v.id in fld.extra]
        for p in src:
            for n in walk_own(g.node):
                if not isinstance(n, ast.For) or not any(isinstance(x, ast.Name) and x.id == p for x in ast.walk(n.iter)):
                    continue
                self.rep.count("attribute loops")
                names = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
                vals = {x.id for x in ast.walk(n.target.elts[1]) if isinstance(x, ast.Name)} if isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and "items" in text(n.iter) else names
                r = reach(g)

                def comes(e, names=names, depth=5):
                    return depth > 0 and any(isinstance(x, ast.Name) and (x.id in names or any(isinstance(d[1], ast.AST) and d[0] in ("expr", "unpack") and comes(d[1], names, depth - 1)
                                                                                         for d in r.use.get(x, ()))) for x in ast.walk(e))

                class W(Paths):
                    def store(self, t, value, stmt, sts):
                        sts = super().store(t, value, stmt, sts)
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in dst and isinstance(value, ast.AST) and comes(value, vals) and comes(t.slice):
                            sts = self.apply(sts, ({("w",)}, ()))
                        return sts

                def upd(c):
                    if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in dst and c.func.attr in ("update", "setdefault", "__setitem__") and c.args:
                        return {("w",)}, ()
                w = W(g, on_call=upd, noreturn=noreturn(self.prj, g))
                out = {"cont": [], "brk": [], "ret": []}
                try:
                    fall = w.block(n.body, [State(frozenset(), {})], out)
                except TooMany:
                    continue
                if any(("w",) not in s.flags for s in fall + out["cont"]) or out["brk"] or out["ret"]:
                    self.rep.finding("not-written", g, text(n, 60), "on some path an attribute is not passed on to be written", n)

    # -- the copier
    def copiers(self):
        for f in self.funcs:
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
                    c = n.value
                    nm = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
                    if nm in ("makeelement", "Element", "_Element_Py") and c.args and isinstance(c.args[0], ast.Attribute) and c.args[0].attr == "tag" and isinstance(c.args[0].value, ast.Name) \
                            and c.args[0].value.id in f.params:
                        if any(isinstance(r, ast.Return) and isinstance(r.value, ast.Name) and r.value.id == n.targets[0].id for r in walk_own(f.node)):
                            yield f, n.targets[0].id, c.args[0].value.id

    def copier(self, f, res, node):
        fld = Fields(self.prj, self.fold, f, node)
        fld.lossy = CASE | {"strip", "lstrip", "rstrip", "replace", "split", "splitlines"}
        loose = {"parent", "document"}

        def keep(t, value, stmt):
            v = value[0] if isinstance(value, tuple) else value
            if isinstance(t, ast.Name) and t.id == res and isinstance(v, ast.Call):
                return set().union(*[fld.of(a) for a in v.args + [k.value for k in v.keywords]])
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == res and isinstance(v, ast.AST):
                return {t.attr} if t.attr in loose or t.attr in fld.of(v) else set()
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and isinstance(t.value.value, ast.Name) and t.value.value.id == res and isinstance(v, ast.AST):
                return {t.value.attr} & fld.of(v)
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == res and isinstance(t.slice, ast.Slice) and isinstance(v, ast.AST):
                return {"children"} if "children" in fld.of(v) or fld.isnode(v) else set()
            return set()

        def call(n):
            if isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and isinstance(n.args[0], ast.Name) and n.args[0].id == res:
                fs = fld.names(n.args[1]) & fld.of(n.args[2])
                return ({("w", x) for x in fs}, ()) if fs else None
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == res and n.func.attr in ("append", "extend", "insert"):
                if any("children" in fld.of(a) or fld.isnode(a) for a in n.args):
                    return {("w", "children")}, ()
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("update", "set") and isinstance(n.func.value, (ast.Name, ast.Attribute)) \
                    and (n.func.value.id if isinstance(n.func.value, ast.Name) else getattr(n.func.value.value, "id", "")) == res:
                fs = set().union(*[fld.of(a) for a in n.args]) & {"attrib"} if n.args else set()
                return ({("w", x) for x in fs}, ()) if fs else None
            return None
        self.judge(f, fld, Must(self, f, fld, call=call, keep=keep), set(CORE) | self.content | self.derived, "copied", "not-copied")

    # -- content taken over from another element
    def takers(self, f):
        need = self.content | {"text", "contentHash"} & (self.derived | {"text"})
        for n in walk_own(f.node):
            if not (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].slice, ast.Slice) and n.targets[0].slice.lower is None
                    and isinstance(n.targets[0].value, ast.Name) and isinstance(self.plain(n.value), ast.Name)):
                continue
            t, b = n.targets[0].value.id, self.plain(n.value).id
            blk = next((getattr(n._parent, k) for k in ("body", "orelse", "finalbody") if n in (getattr(n._parent, k, None) or [])), [])
            got = self.moved(blk, t, b, f)
            if not got & need and not any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == b and x.attr in need for x in walk_own(f.node)):
                continue
            self.rep.count("contents taken over")
            self.rep.site("%s %s: %s takes over what %s carries" % (f.module.path, f.qual, t, b))
            for x in sorted(need - got):
                self.rep.finding("not-taken-over", f, "%s: %s" % (text(n, 40), x), "%s takes over children and more of %s, but not its %s" % (t, b, x), n)

    def moved(self, blk, t, b, f, depth=3):
        got = set()
        r = reach(f)

        def has(e, depth=3):
            return any(isinstance(z, ast.Name) and (z.id == b or depth and any(d[0] == "expr" and isinstance(d[1], ast.AST) and has(d[1], depth - 1) for d in r.use.get(z, ()))) for z in ast.walk(e))
        for s in blk:
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and depth and any(isinstance(a, ast.Name) and a.id == t for a in x.args + [k.value for k in x.keywords]):
                    for g in self.prj.callees(x, f, f.module)[0]:
                        bd = bind(x, g)
                        gt = next((p for p, v in bd.items() if isinstance(v, ast.Name) and v.id == t), None)
                        gb = next((p for p, v in bd.items() if isinstance(v, ast.Name) and v.id == b), None)
                        if gt and gb:
                            got |= self.moved(g.body, gt, gb, g, depth - 1)
                if isinstance(x, ast.Assign):
                    for y in x.targets:
                        if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == t and has(x.value):
                            got.add(y.attr)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) == 3 and isinstance(x.args[0], ast.Name) and x.args[0].id == t \
                        and has(x.args[2]):
                    if isinstance(x.args[1], ast.Constant):
                        got.add(x.args[1].value)
                    elif isinstance(x.args[1], ast.Name):
                        for d in r.use.get(x.args[1], ()):
                            if d[0] == "iter":
                                v = const_tuple(d[1])
                                if v is None:
                                    v = self.fold.value(d[1], f)
                                got |= set(v) if isinstance(v, (set, tuple, list, frozenset)) else set()
        return got


def run(prj, fold, rep):
    rep.rule("on every path the writer writes, and the copier copies, each thing an element carries unless it is known not to be there; the reader gives every comment it collects to an element "
             "and keeps the text after one; whoever takes over an element's children takes over what goes with them")
    chk = Check(prj, fold, rep)
    rep.count("functions", len(chk.funcs))
    for f in chk.readers:
        chk.reader(f)
    for f, w, node in chk.writers():
        chk.writer(f, w, node)
    for f, res, node in chk.copiers():
        chk.copier(f, res, node)
    for f in chk.funcs:
        chk.takers(f)


A = "lib/sldr/a.py"
BASE = '''
import io
import xml.etree.ElementTree as et
class Writer(object):
    def out(self, write, base=None, indent=''):
        attrs = {}
        self.collect(base.attrib, attrs)
        for c in getattr(base, 'comments', []):
            write('<!--{}-->'.format(c))
        write('{}<{}'.format(indent, base.tag))
        for k in sorted(attrs):
            write(' {}="{}"'.format(k, attrs[k]))
        if len(base):
            write('>')
            for b in base:
                self.out(write, base=b, indent=indent + ' ')
            write('</{}>'.format(base.tag))
        elif base.text:
            t = base.text.strip()
            write('>{}</{}>'.format(t, base.tag))
        else:
            write('/>')
        for c in getattr(base, 'commentsafter', []):
            write('<!--{}-->'.format(c))
    def collect(self, attribs, res):
        for k, v in attribs.items():
            res[self.local(k)] = v
    def local(self, k):
        return k.split('}')[-1]
class Doc(Writer):
    def __init__(self, fh):
        curr = None
        comments = []
        for event, elem in et.iterparse(fh, events=('start', 'end')):
            if event == 'start':
                if elem.tag == '!--':
                    comments.append(elem.get('text'))
                else:
                    if len(comments):
                        elem.comments = comments
                        comments = []
                    elem.contentHash = None
                    elem.parent = curr
                    if curr is None:
                        self.root = elem
                    curr = elem
            elif elem.tag != '!--':
                last = None
                for c in list(elem):
                    if c.tag != '!--':
                        last = c
                        continue
                    if last is None:
                        elem.text = (elem.text or '') + (c.tail or '')
                    else:
                        last.tail = (last.tail or '') + (c.tail or '')
                    elem.remove(c)
                if len(comments) and len(elem):
                    elem[-1].commentsafter = comments
                    comments = []
                curr = elem.parent
                if elem.text == '-' and curr is not None:
                    curr.remove(elem)
        if len(comments):
            self.root.commentsafter = comments
    def copynode(self, n, parent=None):
        res = n.makeelement(n.tag, n.attrib)
        res.text = n.text
        for a in ('contentHash', 'parent'):
            if hasattr(n, a):
                setattr(res, a, getattr(n, a))
        for a in ('comments', 'commentsafter'):
            if hasattr(n, a):
                setattr(res, a, list(getattr(n, a)))
        for c in n:
            res.append(self.copynode(c, parent=res))
        return res
    def same(self, a, b):
        return a.contentHash == b.contentHash and a.parent is b.parent
    def take(self, t, b):
        if b.contentHash != t.contentHash:
            t[:] = b
            for a in ('text', 'contentHash', 'comments', 'commentsafter'):
                if hasattr(b, a):
                    setattr(t, a, getattr(b, a))
                elif hasattr(t, a):
                    delattr(t, a)
'''


def _e(name, want, *edits):
    s = BASE
    for a, b in edits:
        assert a in s, a
        s = s.replace(a, b)
    return (name, {A: s}, want)


_W, _C, _L, _T, _K = ["not-written"], ["not-copied"], ["lost"], ["text-lost"], ["not-taken-over"]
_WC = "        for c in getattr(base, 'comments', []):\n            write('<!--{}-->'.format(c))\n"
_WA = "        for c in getattr(base, 'commentsafter', []):\n            write('<!--{}-->'.format(c))\n"
_KID = "            for b in base:\n                self.out(write, base=b, indent=indent + ' ')\n"
_SE = "                if len(comments) and len(elem):\n                    elem[-1].commentsafter = comments\n                    comments = []\n"
_TAKE = "            for a in ('text', 'contentHash', 'comments', 'commentsafter'):\n                if hasattr(b, a):\n                    setattr(t, a, getattr(b, a))\n                elif hasattr(t, a):\n                    delattr(t, a)\n"
EXAMPLES = [
    _e("fine", False),
    _e("comments not written", _W, (_WC, "")),
    _e("comments of some written", _W, (_WA, ""), ("            write('</{}>'.format(base.tag))\n        elif", "            write('</{}>'.format(base.tag))\n" + _WA.replace("        for", "            for").replace("            write", "                write") + "        elif")),
    _e("some comments left out", _W, ("            write('<!--{}-->'.format(c))\n        write('{}<{}'", "            if c.strip():\n                write('<!--{}-->'.format(c))\n        write('{}<{}'")),
    _e("some children left out", _W, (_KID, _KID.replace("                self", "                if b.tag == 'x':\n                    continue\n                self"))),
    _e("first children only", _W, (_KID, _KID.replace("in base", "in base[:9]"))),
    _e("some text left out", _W, ("elif base.text:", "elif base.text and base.text != 'x':")),
    _e("text cut on one path", _W, ("            t = base.text.strip()\n", "            if base.tag == 'x':\n                t = ''\n            else:\n                t = base.text.strip()\n")),
    _e("some attributes left out", _W, ("            write(' {}=\"{}\"'", "            if attrs[k]: write(' {}=\"{}\"'")),
    _e("some attributes not collected", _W, ("            res[self.local(k)] = v", "            if v: res[self.local(k)] = v")),
    _e("another value collected", _W, ("            res[self.local(k)] = v", "            res[self.local(k)] = k")),
    _e("early way out", _W, ("        if len(base):\n            write('>')", "        if not len(base) and not base.text:\n            write('/>')\n            return\n        if len(base):\n            write('>')")),
    _e("written in a helper", False, (_WC, "        self.comm(write, base, 'comments')\n"), (_WA, "        self.comm(write, base, 'commentsafter')\n"),
       ("    def local(", "    def comm(self, write, n, name):\n        for c in getattr(n, name, []):\n            write('<!--{}-->'.format(c))\n    def local(")),
    _e("another name given to the helper", _W, (_WC, "        self.comm(write, base, 'comments')\n"), (_WA, "        self.comm(write, base, 'comments')\n"),
       ("    def local(", "    def comm(self, write, n, name):\n        for c in getattr(n, name, []):\n            write('<!--{}-->'.format(c))\n    def local(")),
    _e("children in a helper", False, (_KID, "            self.kids(write, base, indent)\n"), ("    def local(", "    def kids(self, write, n, indent):\n        for b in n:\n            self.out(write, base=b, indent=indent)\n    def local(")),
    _e("some children in a helper", _W, (_KID, "            self.kids(write, base, indent)\n"), ("    def local(", "    def kids(self, write, n, indent):\n        for b in n:\n            if b.text:\n                self.out(write, base=b, indent=indent)\n    def local(")),
    _e("asked before", False, (_WC, "        if hasattr(base, 'comments'):\n            for c in base.comments:\n                write('<!--{}-->'.format(c))\n")),
    _e("of some only", _W, (_WA, _WA.replace("getattr(base, 'commentsafter', [])", "(getattr(base, 'commentsafter', []) if len(base) else [])"))),
    _e("of some only, shorter", _W, (_WA, _WA.replace("getattr(base, 'commentsafter', [])", "len(base) and getattr(base, 'commentsafter', []) or []"))),
    _e("where there are some", False, (_WA, _WA.replace("getattr(base, 'commentsafter', [])", "(base.commentsafter if hasattr(base, 'commentsafter') else [])"))),
    _e("tried", False, (_WC, "        try:\n            cs = base.comments\n        except AttributeError:\n            cs = []\n        for c in cs:\n            write('<!--{}-->'.format(c))\n")),
    _e("first comment only", _W, (_WC, "        if hasattr(base, 'comments'):\n            write('<!--{}-->'.format(base.comments[0]))\n")),
    _e("text in lower case", _W, ("t = base.text.strip()", "t = base.text.strip().lower()")),
    _e("buffered", False, ("        for k in sorted(attrs):\n            write(' {}=\"{}\"'.format(k, attrs[k]))\n", "        ats = []\n        for k in sorted(attrs):\n            ats.append(' {}=\"{}\"'.format(k, attrs[k]))\n        write(''.join(ats))\n")),
    _e("buffered in part", _W, ("        for k in sorted(attrs):\n            write(' {}=\"{}\"'.format(k, attrs[k]))\n", "        ats = []\n        for k in sorted(attrs):\n            if attrs[k]:\n                ats.append(' {}=\"{}\"'.format(k, attrs[k]))\n        write(''.join(ats))\n")),
    _e("comment not collected", _L, ("                    comments.append(elem.get('text'))\n", "                    if curr is not None:\n                        comments.append(elem.get('text'))\n")),
    _e("joined", False, (_WC, "        cs = getattr(base, 'comments', None) or []\n        write(''.join('<!--{}-->'.format(c) for c in cs))\n")),
    _e("length first", False, ("        if len(base):\n", "        size = len(base)\n        if size > 0:\n")),
    _e("the other way round", False, ("        if len(base):\n            write('>')\n" + _KID + "            write('</{}>'.format(base.tag))\n        elif base.text:\n            t = base.text.strip()\n            write('>{}</{}>'.format(t, base.tag))\n        else:\n            write('/>')\n",
                                      "        if not len(base) and not base.text:\n            write('/>')\n        elif not len(base):\n            write('>' + base.text + '</' + base.tag + '>')\n        else:\n            write('>')\n" + _KID + "            write('</{}>'.format(base.tag))\n")),
    _e("comments not copied", _C, ("('comments', 'commentsafter'):\n            if hasattr(n", "('comments',):\n            if hasattr(n")),
    _e("text not copied", _C, ("        res.text = n.text\n", "")),
    _e("children not copied", _C, ("        for c in n:\n            res.append(self.copynode(c, parent=res))\n", "")),
    _e("some children not copied", _C, ("            res.append(self.copynode(c, parent=res))\n", "            if c.text:\n                res.append(self.copynode(c, parent=res))\n")),
    _e("attributes not copied", _C, ("n.makeelement(n.tag, n.attrib)", "n.makeelement(n.tag, {})")),
    _e("hash not copied", _C, ("('contentHash', 'parent')", "('parent',)")),
    _e("copied before", _C * 2, ("        for c in n:\n            res.append", "        if not len(n):\n            return res\n        for c in n:\n            res.append"), ("        for a in ('comments', 'commentsafter'):\n            if hasattr(n, a):\n                setattr(res, a, list(getattr(n, a)))\n", ""),
       ("parent=res))\n        return res", "parent=res))\n        for a in ('comments', 'commentsafter'):\n            if hasattr(n, a):\n                setattr(res, a, list(getattr(n, a)))\n        return res")),
    _e("copied one by one", False, ("        for a in ('comments', 'commentsafter'):\n            if hasattr(n, a):\n                setattr(res, a, list(getattr(n, a)))\n", "        if hasattr(n, 'comments'):\n            res.comments = n.comments[:]\n        after = getattr(n, 'commentsafter', None)\n        if after is not None:\n            res.commentsafter = list(after)\n")),
    _e("children at once", False, ("        for c in n:\n            res.append(self.copynode(c, parent=res))\n", "        res[:] = [self.copynode(c, parent=res) for c in n]\n")),
    _e("comments dropped at the end", _L, ("        if len(comments):\n            self.root.commentsafter = comments\n", "")),
    _e("comments dropped in between", _L, (_SE, "                if len(elem):\n                    elem[-1].commentsafter = comments\n                comments = []\n")),
    _e("comments cleared", _L, (_SE, "                if len(elem):\n                    elem[-1].commentsafter = list(comments)\n                comments.clear()\n")),
    _e("comments kept and cleared", False, (_SE, "                if comments and len(elem):\n                    elem[-1].commentsafter = list(comments)\n                    comments.clear()\n")),
    _e("text after dropped", _T, ("                    if last is None:\n                        elem.text = (elem.text or '') + (c.tail or '')\n                    else:\n                        last.tail = (last.tail or '') + (c.tail or '')\n", "")),
    _e("markers removed", _T, ("            elif elem.tag != '!--':\n                last = None", "            elif elem.tag == '!--':\n                curr.remove(elem)\n            else:\n                last = None")),
    _e("text after kept by a helper", False, ("                    if last is None:\n                        elem.text = (elem.text or '') + (c.tail or '')\n                    else:\n                        last.tail = (last.tail or '') + (c.tail or '')\n", "                    self.keep(elem, last, c)\n"),
       ("    def same(", "    def keep(self, e, last, c):\n        if last is None:\n            e.text = (e.text or '') + (c.tail or '')\n        else:\n            last.tail = (last.tail or '') + (c.tail or '')\n    def same(")),
    _e("text not taken over", _K, ("('text', 'contentHash', 'comments'", "('contentHash', 'comments'")),
    _e("comments not taken over", _K, ("('text', 'contentHash', 'comments', 'commentsafter')", "('text', 'contentHash', 'commentsafter')")),
    _e("only children taken over", _K * 4, (_TAKE, "")),
    _e("taken over by a helper", False, (_TAKE, "            self.rest(t, b)\n"), ("    def same(", "    def rest(self, t, b):\n" + _TAKE.replace("            for", "        for").replace("\n    ", "\n") + "    def same(")),
    _e("taken over one by one", False, (_TAKE, "            t.text = b.text\n            t.contentHash = b.contentHash\n            t.comments = getattr(b, 'comments', [])\n            t.commentsafter = getattr(b, 'commentsafter', [])\n")),
]
