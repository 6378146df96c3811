"""P28: what can be walked only once is walked only once, and not asked what it cannot tell."""
import ast
from ..core import walk_own, text, dotted, parents, bind, targets
from ..paths import Paths, State, TooMany, atoms
from ..noret import noreturn

TECHNIQUE = "path-sensitive typestate (fresh, walked) of iterators held in variables, with summaries of generator functions and of parameters that are walked more than once"
NOTE = ("Only values that certainly are iterators are judged: generator expressions and functions, map, filter, zip, enumerate, reversed, iter, csv readers, "
        "regular expression finditer, itertools, element iterators, and files for being read twice. A walk that may be left early does not use an iterator up.")

LAZY = {"map", "filter", "zip", "enumerate", "reversed", "iter"}
EXT = ("csv.reader", "csv.DictReader", "re.finditer", "os.walk", "os.scandir", "glob.iglob", "xml.etree.ElementTree.iterparse", "lxml.etree.iterparse")
METHODS = {"finditer", "iterfind", "itertext", "iterancestors", "iterdescendants", "iterchildren", "imap", "imap_unordered", "iterdir", "iglob"}
FULL = {"list", "tuple", "set", "frozenset", "dict", "sorted", "sum", "min", "max"}
PARTIAL = {"next", "any", "all"}
SHOWN = {"str", "repr", "print", "format"}


def is_generator(g):
    return not g.is_lambda and not isinstance(g.node, ast.Module) and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(g.node))


class Iters:
    """which expressions are iterators"""

    def __init__(self, prj):
        self.prj, self.memo = prj, {}

    def returns(self, g):
        if g in self.memo:
            return self.memo[g]
        self.memo[g] = None
        if "contextmanager" in " ".join(g.decorators):
            return None
        r = None
        if is_generator(g):
            r = "the generator %s" % g.qual
        elif not g.is_lambda and not isinstance(g.node, ast.Module):
            rs = [n.value for n in walk_own(g.node) if isinstance(n, ast.Return)]
            ks = [self.kind(v, g) if v is not None else None for v in rs]
            if rs and None not in ks:
                r = "%s, which returns %s" % (g.qual, ks[0])
        self.memo[g] = r
        return r

    def kind(self, n, f):
        if isinstance(n, ast.GeneratorExp):
            return "a generator"
        if isinstance(n, ast.IfExp):
            a, b = self.kind(n.body, f), self.kind(n.orelse, f)
            return a if a and b else None
        if isinstance(n, ast.Call):
            e = self.prj.ext_name(n.func, f, f.module) or ""
            if e.startswith("builtins.") and e[9:] in LAZY:
                return "%s()" % e[9:]
            if e in EXT or e.startswith("itertools.") and e != "itertools.tee":
                return "%s()" % e
            fs, exact = self.prj.callees(n, f, f.module)
            if fs:
                if exact or len(fs) == 1:
                    ks = [self.returns(g) for g in fs]
                    if None not in ks:
                        return ks[0]
                return None
            if isinstance(n.func, ast.Attribute):
                if n.func.attr in METHODS:
                    return ".%s()" % n.func.attr
                if n.func.attr == "iter" and not n.keywords and len(n.args) <= 1:
                    return ".iter()"
        return None

    def opens(self, n, f):
        return isinstance(n, ast.Call) and (self.prj.ext_name(n.func, f, f.module) or "") in ("builtins.open", "io.open", "codecs.open")


def leaves(loop):
    """a walk that may stop early"""
    def go(body, top):
        for s in body:
            if isinstance(s, (ast.Return, ast.Raise)) or isinstance(s, ast.Break) and top:
                return True
            if isinstance(s, (ast.For, ast.While)):
                if go(s.body, False) or go(s.orelse, top):
                    return True
            elif not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                for f in ("body", "orelse", "finalbody"):
                    if go(getattr(s, f, []) or [], top):
                        return True
                if any(go(h.body, top) for h in getattr(s, "handlers", [])) or any(go(c.body, top) for c in getattr(s, "cases", [])):
                    return True
        return False
    return go(loop.body, True)


class Walk(Paths):
    """flags: ("it", variable, what it is), ("used", variable, line of the walk)"""

    def __init__(self, chk, f, given=None):
        super().__init__(f, noreturn=noreturn(chk.prj, f))
        self.chk, self.f, self.given = chk, f, given
        self.coarse, self.may = 40, ()
        self.found = {}
        self.shared = {x for n in walk_own(f.node) if isinstance(n, (ast.FunctionDef, ast.Lambda)) for y in ast.walk(n) if isinstance(y, ast.Name) for x in [y.id]}

    # -- states
    def kinds(self, name, sts):
        """what the variable is, when it is an iterator on every path here"""
        k = None
        for s in sts:
            k = next((x[2] for x in s.flags if x[0] == "it" and x[1] == name), None)
            if k is None:
                return None
        return k

    def drop(self, name, sts):
        res = []
        for s in sts:
            fl = frozenset(x for x in s.flags if x[1] != name)
            res.append(s if len(fl) == len(s.flags) else State(fl, s.facts, s.trail))
        return self.dedupe(res)

    def add(self, name, kind, sts):
        return self.dedupe([State(frozenset(x for x in s.flags if x[1] != name) | {("it", name, kind)}, s.facts, s.trail) for s in sts])

    def use(self, n, sts, full=True):
        res = []
        for s in sts:
            it = next((x for x in s.flags if x[0] == "it" and x[1] == n.id), None)
            if it is None:
                res.append(s)
                continue
            used = next((x for x in s.flags if x[0] == "used" and x[1] == n.id), None)
            if used is not None:
                self.report("walked-twice", n, "%s is %s and was walked to its end at line %d already: nothing is left of it here" % (n.id, it[2], used[2]))
            if full:
                res.append(State(s.flags | {("used", n.id, getattr(n, "lineno", 0))}, s.facts, s.trail))
            else:
                res.append(s)
        return self.dedupe(res)

    def report(self, rule, n, msg):
        self.found.setdefault((rule, n.lineno, n.col_offset), (rule, n, msg))

    def what(self, n, sts):
        """n is an iterator here"""
        if isinstance(n, ast.Name):
            k = self.kinds(n.id, sts)
            return k if k and not k.startswith("the file") else None
        return self.chk.iters.kind(n, self.f) or self.chk.attr(n, self.f)

    # -- tests
    def assume(self, sts, t, pol, note=None):
        if sts:
            for e, p in atoms(t, True) + atoms(t, False):
                k = self.what(e, sts)
                if k and not (self.given and isinstance(e, ast.Name) and e.id == self.given):
                    self.report("always-true", e, "%s is %s, which is true whether or not there is anything in it" % (text(e, 40), k))
        return super().assume(sts, t, pol, note)

    # -- expressions
    def walked(self, n, sts, full=True):
        return self.use(n, sts, full) if isinstance(n, ast.Name) else sts

    def expr(self, n, sts):
        if n is None or not sts:
            return sts
        if isinstance(n, ast.Call):
            return self.call(n, sts)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            lazy = isinstance(n, ast.GeneratorExp)
            taken = lazy and self.eaten(n)
            for i, g in enumerate(n.generators):
                if isinstance(g.iter, ast.Name) and any(x[0] == "it" and x[1] == g.iter.id for s in sts for x in s.flags):
                    if i > 0 and not any(g.iter.id in list(targets(h.target)) for h in n.generators[:i]):
                        self.report("walked-twice", g.iter, "%s is walked to its end for the first %s, and nothing is left of it for the next" % (g.iter.id, text(n.generators[0].target, 30)))
                        sts = self.drop(g.iter.id, sts)
                    elif lazy and not taken:
                        sts = self.drop(g.iter.id, sts)
                    else:
                        sts = self.use(g.iter, sts)
            # inside, a name is used once for every element
            inner = {x.id for p in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]) + [i for g in n.generators for i in g.ifs] for x in ast.walk(p) if isinstance(x, ast.Name)}
            for p in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]) + [i for g in n.generators for i in g.ifs]:
                for c in ast.walk(p):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in FULL and len(c.args) == 1 and isinstance(c.args[0], ast.Name):
                        a = c.args[0]
                        if any(x[0] == "it" and x[1] == a.id for s in sts for x in s.flags) and not any(a.id in list(targets(g.target)) for g in n.generators):
                            self.report("walked-twice", a, "%s is walked to its end for the first %s, and nothing is left of it for the next" % (a.id, text(n.generators[0].target, 30)))
                            sts = self.drop(a.id, sts)
            for x in inner:
                if any(y[0] == "it" and y[1] == x for s in sts for y in s.flags):
                    sts = self.drop(x, sts)
            return super().expr(n, sts)
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            k = self.what(n.value, sts)
            if k:
                self.report("not-a-list", n, "%s is %s, which has no elements to pick" % (text(n.value, 40), k))
        elif isinstance(n, ast.BinOp):
            if isinstance(n.op, ast.Mod) and (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                for x in (n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]):
                    self.shown(x, sts)
            elif isinstance(n.op, (ast.Add, ast.Mult)):
                for x in (n.left, n.right):
                    k = self.what(x, sts)
                    if k:
                        self.report("not-a-list", n, "%s is %s, which cannot be joined to anything" % (text(x, 40), k))
        elif isinstance(n, ast.FormattedValue):
            self.shown(n.value, sts)
        elif isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                a, b = ([n.left] + n.comparators)[i:i + 2]
                if isinstance(o, (ast.Eq, ast.NotEq)):
                    for x, y in ((a, b), (b, a)):
                        k = self.what(x, sts)
                        if k and isinstance(y, (ast.List, ast.Tuple, ast.Set, ast.Dict, ast.Constant, ast.ListComp)):
                            self.report("not-a-list", n, "%s is %s, which equals nothing but itself" % (text(x, 40), k))
                elif isinstance(o, (ast.In, ast.NotIn)) and isinstance(b, ast.Name):
                    sts = self.use(b, sts, full=False)
        elif isinstance(n, ast.Starred):
            sts = self.walked(n.value, sts)
            if isinstance(n.value, ast.Name):
                return sts
        elif isinstance(n, (ast.Yield, ast.Await)) or isinstance(n, ast.YieldFrom):
            v = n.value
            if isinstance(v, ast.Name):
                sts = self.use(v, sts, full=isinstance(n, ast.YieldFrom))
        elif isinstance(n, (ast.List, ast.Tuple, ast.Set, ast.Dict)):
            sts = super().expr(n, sts)
            for x in (n.elts if not isinstance(n, ast.Dict) else n.values):
                if isinstance(x, ast.Name):
                    sts = self.drop(x.id, sts)
            return sts
        return super().expr(n, sts)

    def eaten(self, n):
        """a generator expression that is walked right where it stands"""
        p = getattr(n, "_parent", None)
        if isinstance(p, ast.Call) and n in p.args:
            return isinstance(p.func, ast.Name) and p.func.id in FULL or isinstance(p.func, ast.Attribute) and p.func.attr in ("join", "extend", "update", "writelines")
        return isinstance(p, ast.Starred) or isinstance(p, (ast.For, ast.comprehension)) and p.iter is n and not (isinstance(p, ast.For) and leaves(p))

    def shown(self, x, sts):
        k = self.what(x, sts)
        if k:
            self.report("shown", x, "%s is %s: what is written is the iterator, not what it yields" % (text(x, 40), k))

    def call(self, n, sts):
        f = n.func
        args = list(n.args) + [k.value for k in n.keywords]
        for a in args:
            if not isinstance(a, ast.Name):
                sts = self.expr(a, sts)
        e = self.chk.prj.ext_name(f, self.f, self.f.module) or ""
        b = e[9:] if e.startswith("builtins.") else ""
        if isinstance(f, ast.Attribute):
            sts = self.method(n, f, sts)
        elif not isinstance(f, ast.Name):
            sts = self.expr(f, sts)
        names = [a for a in args if isinstance(a, ast.Name)]
        if b == "len":
            for a in n.args:
                k = self.what(a, sts)
                if k:
                    self.report("not-a-list", n, "%s is %s, which has no length" % (text(a, 40), k))
            return sts
        if b in SHOWN or isinstance(f, ast.Attribute) and f.attr == "format" and isinstance(f.value, ast.Constant) or e in ("json.dumps", "json.dump"):
            for a in args[:1] if e.startswith("json") else args:
                self.shown(a, sts)
            return sts
        if b in FULL or isinstance(f, ast.Attribute) and f.attr in ("join", "extend", "update", "writelines", "fromkeys", "Counter", "OrderedDict", "deque") \
                or e in ("collections.Counter", "collections.OrderedDict", "collections.deque", "json.load", "csv.DictReader.__next__"):
            for a in names:
                sts = self.use(a, sts)
            return sts
        if b in LAZY and self.eaten(n):
            for a in names:
                sts = self.use(a, sts)
            return sts
        if b in PARTIAL:
            for a in names:
                sts = self.use(a, sts, full=False)
            return sts
        if b in ("isinstance", "type", "id", "hasattr", "callable", "bool"):
            return sts
        fs, exact = self.chk.prj.callees(n, self.f, self.f.module)
        for a in names:
            if not any(x[0] == "it" and x[1] == a.id for s in sts for x in s.flags):
                continue
            if fs and (exact or len(fs) == 1):
                used = False
                for g in fs:
                    p = next((q for q, v in bind(n, g).items() if v is a), None)
                    if p is None or is_generator(g):
                        used = None
                        break
                    bad, full = self.chk.param(g, p)
                    for rule, at, msg in bad:
                        self.report(rule, a, "%s is %s and is given to %s, where %s (line %d)" % (a.id, self.kinds(a.id, sts) or "an iterator", g.qual, msg, at))
                    used = used or full
                if used is None:
                    sts = self.drop(a.id, sts)
                elif used:
                    sts = self.use(a, sts)
                else:
                    sts = self.use(a, sts, full=False)
            else:
                sts = self.drop(a.id, sts)
        # an iterator made on the spot and given to a function that needs more than one walk
        if fs and (exact or len(fs) == 1):
            for a in args:
                if isinstance(a, ast.Starred) or isinstance(a, ast.Name):
                    continue
                k = self.chk.iters.kind(a, self.f)
                if not k:
                    continue
                for g in fs:
                    p = next((q for q, v in bind(n, g).items() if v is a), None)
                    if p is not None and not is_generator(g) and p != g.vararg:
                        for rule, at, msg in self.chk.param(g, p)[0]:
                            self.report(rule, a, "%s, %s, is given to %s, where %s (line %d)" % (text(a, 40), k, g.qual, msg, at))
        if isinstance(f, ast.Name):
            pass
        return sts

    def method(self, n, f, sts):
        v = f.value
        if isinstance(v, ast.Name):
            isfile = any(x[0] == "it" and x[1] == v.id and x[2].startswith("the file") for s in sts for x in s.flags)
            if isfile:
                if f.attr in ("read", "readlines") and not n.args:
                    return self.use(v, sts)
                if f.attr == "seek":
                    return self.dedupe([State(frozenset(x for x in s.flags if x[:2] != ("used", v.id)), s.facts, s.trail) for s in sts])
                if f.attr in ("readline", "__next__", "close", "fileno", "tell", "name"):
                    return sts
                return self.drop(v.id, sts)
            return sts
        return self.expr(v, sts)

    def store(self, t, value, stmt, sts):
        sts = super().store(t, value, stmt, sts)
        if isinstance(t, ast.Name):
            sts = self.drop(t.id, sts)
            if t.id in self.shared or t.id in self.f.globals_ or t.id in self.f.nonlocals:
                return sts
            if isinstance(stmt, (ast.With, ast.AsyncWith)):
                for i in stmt.items:
                    if i.optional_vars is t and self.chk.iters.opens(i.context_expr, self.f):
                        return self.add(t.id, "the file opened at line %d" % stmt.lineno, sts)
                return sts
            if isinstance(stmt, (ast.For, ast.AsyncFor, ast.AugAssign)) or isinstance(value, tuple) or value is None:
                return sts
            k = self.chk.iters.kind(value, self.f)
            if k:
                sts = self.add(t.id, k, sts)
            elif isinstance(value, ast.Name):
                sts = self.drop(value.id, sts)
        elif isinstance(value, ast.Name):
            sts = self.drop(value.id, sts)
        return sts

    def stmt(self, s, sts, out):
        if isinstance(s, (ast.For, ast.AsyncFor)) and isinstance(s.iter, ast.Name):
            full = not leaves(s)
            sts = self.use(s.iter, sts, full)
            return super().stmt(s, sts, out)
        if isinstance(s, ast.Return) and isinstance(s.value, ast.Name):
            sts = self.drop(s.value.id, sts)
        return super().stmt(s, sts, out)


class Check:
    def __init__(self, prj, rep):
        self.prj, self.rep = prj, rep
        self.iters = Iters(prj)
        self.params, self.attrs = {}, None

    def param(self, g, p):
        """(problems, walked to the end) of a function whose parameter is given an iterator"""
        k = (g, p)
        if k not in self.params:
            self.params[k] = ([], False)
            if g.is_lambda or isinstance(g.node, ast.Module):
                return self.params[k]
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and n.args and dotted(n.args[0]) == p for n in walk_own(g.node)):
                return self.params[k]
            w = Walk(self, g, given=p)
            try:
                fall, out = w.run(g.body, [("it", p, "an iterator")])
            except TooMany:
                return self.params[k]
            bad = [(r, n.lineno, m) for r, n, m in w.found.values() if any(isinstance(x, ast.Name) and x.id == p for x in ast.walk(n)) and m.find("is an iterator") >= 0 or r == "walked-twice" and isinstance(n, ast.Name) and n.id == p]
            full = any(x[0] == "used" and x[1] == p for s in fall + out["ret"] for x in s.flags)
            self.params[k] = (bad, full)
        return self.params[k]

    def attr(self, n, f):
        """an attribute that only ever holds iterators"""
        if not (isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and f.selfname and n.value.id == f.selfname):
            return None
        if self.attrs is None:
            self.attrs = {}
            for g in self.prj.funcs:
                for x in walk_own(g.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        own = isinstance(x.value, ast.Name) and g.selfname == x.value.id and isinstance(x._parent, ast.Assign)
                        k = self.iters.kind(x._parent.value, g) if own else None
                        self.attrs.setdefault(x.attr, []).append((k, g))
        st = self.attrs.get(n.attr, [])
        return st[0][0] if st and all(k for k, g in st) and any(g.cls is f.cls for k, g in st) else None


def closed(chk, f):
    """iterators over a file that outlive the with statement that closes it"""
    for w in walk_own(f.node):
        if not isinstance(w, (ast.With, ast.AsyncWith)):
            continue
        files = {i.optional_vars.id for i in w.items if isinstance(i.optional_vars, ast.Name) and chk.iters.opens(i.context_expr, f)}
        if not files:
            continue

        def over(n):
            if isinstance(n, ast.GeneratorExp):
                return isinstance(n.generators[0].iter, ast.Name) and n.generators[0].iter.id in files or over(n.generators[0].iter)
            if isinstance(n, ast.Call) and chk.iters.kind(n, f) and not chk.prj.callees(n, f, f.module)[0]:
                return any(isinstance(a, ast.Name) and a.id in files or over(a) for a in n.args)
            return False

        for n in [x for s in w.body for x in [s] + list(walk_own(s))]:
            if isinstance(n, ast.Return) and n.value is not None and over(n.value):
                yield n, "what is returned reads from %s, which is closed by then" % ", ".join(sorted(files))
            if isinstance(n, ast.Assign) and over(n.value):
                for t in n.targets:
                    if isinstance(t, ast.Attribute):
                        yield n, "%s reads from %s, which is closed by the time it is used" % (text(t), ", ".join(sorted(files)))
                    elif isinstance(t, ast.Name):
                        again = [x for x in walk_own(f.node) if isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load)
                                 and x.lineno > w.end_lineno and not any(p is w for p in parents(x))]
                        other = [x for x in walk_own(f.node) if isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Store) and x is not t]
                        if again and not other:
                            yield again[0], "%s reads from %s, which is closed here" % (t.id, ", ".join(sorted(files)))


def run(prj, fold, rep):
    rep.rule("on no path is an iterator walked after it has been walked to its end, tested for being empty, measured, indexed, written out, or walked after its file is closed")
    chk = Check(prj, rep)
    walks = {}
    for f in prj.funcs:
        if f.is_lambda:
            continue
        body = f.node.body
        rep.count("functions")
        for n in walk_own(f.node):
            if isinstance(n, ast.expr) and chk.iters.kind(n, f):
                rep.count("iterators")
                rep.site("%s %s: %s" % (f.module.path, f.qual, text(n, 60)))
        w = Walk(chk, f)
        try:
            w.run(body)
        except TooMany:
            rep.note("not decided, too many paths: %s" % f.qual)
            continue
        for rule, n, msg in w.found.values():
            rep.finding(rule, f, text(n, 60), msg, n)
        for n, msg in closed(chk, f):
            rep.finding("closed", f, text(n, 60), msg, n)
        for n in walk_own(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                k = chk.attr(n, f)
                p = n._parent
                if k and (isinstance(p, (ast.For, ast.comprehension)) and p.iter is n and not (isinstance(p, ast.For) and leaves(p))
                          or isinstance(p, ast.Call) and n in p.args and isinstance(p.func, ast.Name) and p.func.id in FULL):
                    walks.setdefault((f.cls, n.attr), []).append((f, n, k))
    for (c, a), ws in sorted(walks.items(), key=lambda x: (x[0][0].name, x[0][1])):
        if len(ws) > 1:
            f, n, k = ws[1]
            rep.finding("walked-twice", f, "self." + a, "self.%s is %s and is walked to its end in %s as well: only the first of the two sees anything" % (a, k, ws[0][0].qual), n)


L = "lib/sldr/a.py"
G = "def gen(n):\n    for i in range(n):\n        yield i\n"
EXAMPLES = [
    ("once", {L: G + "def f():\n    r = []\n    for x in gen(3):\n        r.append(x)\n    return r\n"}, False),
    ("or default", {L: G + "def f():\n    r = []\n    a = gen(3)\n    for x in a or ['']:\n        r.append(x)\n    return r\n"}, ["always-true"]),
    ("or default of a list", {L: G + "def f():\n    r = []\n    a = list(gen(3))\n    for x in a or ['']:\n        r.append(x)\n    return r\n"}, False),
    ("if", {L: "def f(l):\n    a = filter(None, l)\n    if not a:\n        return None\n    return list(a)\n"}, ["always-true"]),
    ("if directly", {L: "def f(l, k):\n    if filter(lambda x: x == k, l):\n        return True\n"}, ["always-true"]),
    ("none or iterator", {L: "def f(l):\n    a = None\n    if l:\n        a = map(str, l)\n    if a:\n        return list(a)\n"}, False),
    ("is not None", {L: "def f(l):\n    a = map(str, l)\n    if a is not None:\n        return list(a)\n"}, False),
    ("twice", {L: "def f(l):\n    a = map(str, l)\n    n = sum(len(x) for x in a)\n    return n, list(a)\n"}, ["walked-twice"]),
    ("twice in for", {L: "def f(l, g):\n    a = map(str, l)\n    for x in a:\n        g(x)\n    for x in a:\n        g(x)\n"}, ["walked-twice"]),
    ("rest after break", {L: "def f(l, g):\n    a = iter(l)\n    for x in a:\n        if x == '':\n            break\n    for x in a:\n        g(x)\n"}, False),
    ("in an outer loop", {L: "def f(l, m, g):\n    a = filter(None, l)\n    for y in m:\n        for x in a:\n            g(x, y)\n"}, ["walked-twice"]),
    ("made in the outer loop", {L: "def f(l, m, g):\n    for y in m:\n        a = filter(None, l)\n        for x in a:\n            g(x, y)\n"}, False),
    ("nested comprehension", {L: "def f(l, m):\n    a = map(str, l)\n    return [x + y for y in m for x in a]\n"}, ["walked-twice"]),
    ("comprehension", {L: "def f(l, m):\n    a = map(str, l)\n    return [x + y for x in a for y in m]\n"}, False),
    ("one or the other", {L: "def f(l, c):\n    a = map(str, l)\n    if c:\n        return list(a)\n    else:\n        return set(a)\n"}, False),
    ("same test", {L: "def f(l, c):\n    a = map(str, l)\n    if c:\n        r = list(a)\n    if not c:\n        r = set(a)\n    return r\n"}, False),
    ("len", {L: "def f(l):\n    a = zip(l, l)\n    return len(a)\n"}, ["not-a-list"]),
    ("index", {L: "def f(l):\n    return map(str, l)[0]\n"}, ["not-a-list"]),
    ("plus", {L: "def f(l):\n    return map(str, l) + ['x']\n"}, ["not-a-list"]),
    ("compared", {L: "def f(l):\n    return filter(None, l) == []\n"}, ["not-a-list"]),
    ("list first", {L: "def f(l):\n    a = list(map(str, l))\n    return len(a), a[0], a + a\n"}, False),
    ("shown", {L: "def f(l):\n    return 'got %s' % map(str, l)\n"}, ["shown"]),
    ("joined", {L: "def f(l):\n    return 'got %s' % ' '.join(map(str, l))\n"}, False),
    ("helper walks twice", {L: "def h(xs):\n    n = max(xs)\n    return [x / n for x in xs]\ndef f(l):\n    return h(map(int, l))\n"}, ["walked-twice"]),
    ("helper walks twice, list", {L: "def h(xs):\n    n = max(xs)\n    return [x / n for x in xs]\ndef f(l):\n    return h(list(map(int, l)))\n"}, False),
    ("helper measures", {L: "def h(xs):\n    return len(xs)\ndef f(l):\n    a = map(int, l)\n    return h(a)\n"}, ["not-a-list"]),
    ("helper walks it to its end", {L: "def h(xs):\n    return [x + 1 for x in xs]\ndef f(l):\n    a = map(int, l)\n    b = h(a)\n    return b + list(a)\n"}, ["walked-twice"]),
    ("helper lists it first", {L: "def h(xs):\n    xs = list(xs)\n    n = max(xs)\n    return [x / n for x in xs]\ndef f(l):\n    return h(map(int, l))\n"}, False),
    ("returns an iterator", {L: "def h(l):\n    return filter(None, l)\ndef f(l):\n    a = h(l)\n    if a:\n        return list(a)\n"}, ["always-true"]),
    ("next and rest", {L: "def f(l):\n    a = iter(l)\n    head = next(a)\n    return head, list(a)\n"}, False),
    ("file read twice", {L: "import json\ndef f(p):\n    with open(p, encoding='utf-8') as fh:\n        t = fh.read()\n        return t, json.load(fh)\n"}, ["walked-twice"]),
    ("file rewound", {L: "import json\ndef f(p):\n    with open(p, encoding='utf-8') as fh:\n        t = fh.read()\n        fh.seek(0)\n        return t, json.load(fh)\n"}, False),
    ("file header", {L: "def f(p):\n    with open(p, encoding='utf-8') as fh:\n        h = fh.readline()\n        return h, [l for l in fh]\n"}, False),
    ("closed", {L: "def f(p):\n    with open(p, encoding='utf-8') as fh:\n        return (l.strip() for l in fh)\n"}, ["closed"]),
    ("closed reader", {L: "import csv\ndef f(p):\n    with open(p, encoding='utf-8', newline='') as fh:\n        r = csv.reader(fh)\n    return list(r)\n"}, ["closed"]),
    ("open reader", {L: "import csv\ndef f(p):\n    with open(p, encoding='utf-8', newline='') as fh:\n        return list(csv.reader(fh))\n"}, False),
    ("attribute", {L: "class A:\n    def __init__(self, l):\n        self.it = map(str, l)\n    def a(self):\n        return [x for x in self.it]\n    def b(self):\n        return sorted(self.it)\n"}, ["walked-twice"]),
    ("attribute fed on", {L: "class A:\n    def __init__(self, l):\n        self.it = iter(l)\n    def a(self):\n        return next(self.it)\n"}, False),
    ("attribute length", {L: "class A:\n    def __init__(self, l):\n        self.it = map(str, l)\n    def a(self):\n        return len(self.it)\n"}, ["not-a-list"]),
    ("mapped into a list", {L: "def f(l):\n    a = map(str, l)\n    n = list(map(len, a))\n    return n, sorted(a)\n"}, ["walked-twice"]),
    ("enumerated", {L: "def f(l, g):\n    a = map(str, l)\n    for i, x in enumerate(a):\n        g(i, x)\n    for x in a:\n        g(0, x)\n"}, ["walked-twice"]),
    ("reassigned", {L: "def f(l):\n    a = map(str, l)\n    x = list(a)\n    a = map(int, l)\n    return x + list(a)\n"}, False),
]
