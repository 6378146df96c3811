"""P32: the options an operation is given reach every level of it."""
import ast
from ..core import text, walk_own, bind, Func
from ..reach import reach
from ..consts import UNKNOWN

TECHNIQUE = "interprocedural flow of option parameters around the cycles of the call graph, to overridden methods and to the procedures that do the work, over reaching definitions"
NOTE = ("An option is a parameter with a default. Positions in the document (another node at each level), values made longer on the way down and values that "
        "differ between the calls of a cycle are not options of the whole operation. Options of module-level helpers that no call in the project ever sets are not judged.")

MUTATORS = {"append", "extend", "insert", "remove", "set", "update", "add", "discard", "clear", "pop", "setdefault", "popitem", "addprevious", "addnext", "write", "merge", "clone"}


def fits(call, g, bound):
    """can the call be one of g?  (a method of that name found by name only may be another's)"""
    n = len(g.params) - (1 if g.cls is not None and not g.is_static and bound else 0)
    if len(call.args) > n and not g.vararg:
        return False
    return all(k.arg is None or k.arg in g.params or k.arg in g.kwonly or g.kwarg for k in call.keywords)


class Check:
    def __init__(self, prj, fold, rep):
        self.prj, self.fold, self.rep = prj, fold, rep
        self.sites = {}         # function -> [(call, callee, argument map)]
        for f in prj.funcs:
            self.sites[f] = []
            for n in walk_own(f.node):
                if isinstance(n, ast.Call):
                    fs, exact = prj.callees(n, f, f.module)
                    for g in fs:
                        if isinstance(g.node, ast.Module) or g.is_lambda or not exact and (len(fs) > 1 or not fits(n, g, True)):
                            continue
                        if g.name == "__init__" and not self.is_super(n):
                            continue        # another object
                        b = self.unbound(n, g)
                        self.sites[f].append((n, g, bind(n, g, not b)))
        self.inner = {}
        for f in prj.funcs:
            if f.outer is not None:
                self.inner.setdefault(f.outer, []).append(f)
        # an operation's nested functions and lambdas run as part of it
        self.next = {f: {g for _, g, _ in s} | set(self.inner.get(f, ())) for f, s in self.sites.items()}
        self.reachable, self.proc = {}, {}
        self.given = {}         # (function, parameter) -> set by some call of the project, from something other than itself
        for f, s in self.sites.items():
            for n, g, b in s:
                for p, v in b.items():
                    if p in g.defaults and not (isinstance(v, ast.Name) and v.id == p and p in f.allparams and f is g):
                        self.given[(g, p)] = True

    def unbound(self, call, g):
        """Class.method(obj, ...)"""
        fn = call.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and g.cls is not None and not g.is_static and not g.is_classmethod:
            return fn.value.id[:1].isupper() and fn.value.id == g.cls.name
        return False

    def reach(self, f):
        if f not in self.reachable:
            seen, todo = set(), [f]
            while todo:
                for g in self.next.get(todo.pop(), ()):
                    if g not in seen:
                        seen.add(g)
                        todo.append(g)
            self.reachable[f] = seen
        return self.reachable[f]

    def family(self, f):
        """the functions of f's cycle"""
        return {g for g in self.reach(f) if f in self.reach(g)}

    # does the value come from one of the names (parameters of f) on some path?
    def derives(self, n, f, names, depth=8, seen=()):
        if n is None or depth <= 0:
            return False
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                if (x, f) in seen:
                    continue
                ds = reach(f).use.get(x)
                if ds is None:
                    # of an enclosing function
                    t = self.prj.lookup(x.id, f, f.module)
                    if isinstance(t, tuple) and t[0] == "local" and t[1] is not f and (t[1], x.id) in names:
                        return True
                    if isinstance(t, tuple) and t[0] == "local" and t[1] is not f and x.id not in t[1].allparams:
                        for s in walk_own(t[1].node):
                            if isinstance(s, ast.Assign) and any(isinstance(y, ast.Name) and y.id == x.id for y in s.targets) \
                                    and self.derives(s.value, t[1], names, depth - 1, seen + ((x, f),)):
                                return True
                    continue
                for d in ds:
                    if d[0] == "param":
                        if (f, d[1]) in names:
                            return True
                    elif d[0] == "aug":
                        if self.derives(d[1].value, f, names, depth - 1, seen + ((x, f),)) or self.aug(d[1].target, f, names, depth - 1, seen + ((x, f),)):
                            return True
                    elif isinstance(d[1], ast.AST) and d[0] in ("expr", "iter", "unpack"):
                        if self.derives(d[1], f, names, depth - 1, seen + ((x, f),)):
                            return True
                        # chosen by a test of the option: p2 = x if p else y, or set in the branches of such a test
                        if self.chosen(d[1], f, names, depth - 1, seen + ((x, f),)):
                            return True
        return False

    def aug(self, t, f, names, depth, seen):
        if not isinstance(t, ast.Name):
            return False
        return any(d[0] == "param" and (f, d[1]) in names or
                   d[0] == "expr" and self.derives(d[1], f, names, depth, seen) for d in reach(f).use.get(t, ()))

    def chosen(self, v, f, names, depth, seen):
        n = v
        while n is not None and n is not f.node:
            p = getattr(n, "_parent", None)
            if isinstance(p, (ast.If, ast.While, ast.IfExp)) and n is not p.test and any(self.derives(x, f, names, depth, seen) for x in self.asked(p.test, n is p.body or not isinstance(p, ast.IfExp) and n in p.body)):
                return True
            n = p
        return False

    def asked(self, t, pol):
        """what a test settles directly when it comes out so: is it true, is it that constant"""
        if isinstance(t, ast.BoolOp):
            return [y for x in t.values for y in self.asked(x, pol)] if pol == isinstance(t.op, ast.And) else []
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.asked(t.operand, not pol)
        if isinstance(t, ast.Compare):
            xs = [t.left] + t.comparators
            return [x for x in xs if isinstance(x, ast.Name)] if any(isinstance(x, ast.Constant) for x in xs) else []
        return [t] if isinstance(t, ast.Name) else []

    def under(self, call, f, names):
        """the call is made in a branch of a test of the option"""
        return self.chosen(call, f, names, 6, ())

    def stars(self, call, f, p=None):
        """arguments that may carry the option; what a function takes as **kw has none of its own parameters"""
        return any(isinstance(a, ast.Starred) for a in call.args) or \
            any(k.arg is None and not (isinstance(k.value, ast.Name) and k.value.id == f.kwarg and p in f.params + f.kwonly
                                       and all(d[0] == "param" for d in reach(f).use.get(k.value, [("x",)])) and not self.stored(f, f.kwarg)) for k in call.keywords)

    def stored(self, f, kw):
        return any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == kw
                   or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("update", "setdefault") and isinstance(n.func.value, ast.Name) and n.func.value.id == kw
                   for n in walk_own(f.node))

    # -- around a cycle
    def cycle(self, f):
        fam = self.family(f)
        if f not in fam:
            return
        for p in f.defaults:
            if p == f.kwarg or p == f.vararg:
                continue
            if f.cls is None and (f, p) not in self.given:
                continue
            if f.name == "__init__":
                continue
            carriers = {(f, p)}
            changed = True
            while changed:
                changed = False
                for h in fam:
                    for n, g, b in self.sites[h]:
                        if g not in fam or g is f:
                            continue
                        for q, v in b.items():
                            if q != g.selfname and (g, q) not in carriers and self.derives(v, h, carriers):
                                carriers.add((g, q))
                                changed = True
            back = [(n, h, b) for h in fam for n, g, b in self.sites[h] if g is f]
            if not back:
                continue
            self.rep.count("options of recursive operations")
            yield from self.between(f, p, fam, carriers)
            state = self.state(p, back, f, carriers)
            for n, h, b in back:
                if self.added(p, f, h) or self.is_super(n) and h.name == f.name:
                    continue
                self.rep.count("calls judged")
                self.rep.site("%s %s: %s, option %s" % (h.module.path, h.qual, text(n, 60), p))
                v = b.get(p)
                if v is None:
                    if self.stars(n, h, p) or self.under(n, h, carriers):
                        continue
                    yield "not-passed", h, n, "%s() is called again without its option %s, so what is below is done with the default %s" % (f.name, p, text(f.defaults[p], 30))
                elif self.derives(v, h, carriers) or state:
                    continue
                elif self.under(n, h, carriers):
                    continue
                else:
                    c = self.fold.value(v, h)
                    if c is not UNKNOWN:
                        d = self.fold.value(f.defaults[p], f)
                        if d is not UNKNOWN and c == d and type(c) is type(d):
                            yield "not-passed", h, n, "%s() is called again with %s=%s, its default, whatever it was given" % (f.name, p, text(v, 30))
                    elif self.fixed(v, h, f, p):
                        yield "replaced", h, n, "%s() is called again with %s=%s instead of the %s it was given" % (f.name, p, text(v, 40), p)

    def between(self, f, p, fam, carriers):
        """the steps of the cycle that are other functions"""
        for h in fam:
            if not any(x[0] is h for x in carriers):
                continue
            for n, g, b in self.sites[h]:
                if g is f or g not in fam:
                    continue
                for q in g.params + g.kwonly:
                    if q == g.selfname or (g, q) not in carriers and q != p:
                        continue
                    v = b.get(q)
                    back = [(m, k, c) for k in fam for m, j, c in self.sites[k] if j is g]
                    if self.is_super(n) and h.name == g.name or self.stars(n, h, q) or self.under(n, h, carriers) or self.added(q, g, h):
                        continue
                    if v is None:
                        if q in g.defaults and self.same_default(f, g, p, q):
                            yield "not-passed", h, n, "%s() is run for what is below without %s, which %s() was given as %s" % (g.name, q, f.name, p)
                    elif not self.derives(v, h, carriers) and not self.state(q, back, g, carriers):
                        if self.fold.value(v, h) is not UNKNOWN or self.fixed(v, h, g, q):
                            yield "replaced", h, n, "%s() is run for what is below with %s=%s instead of the %s that %s() was given" % (g.name, q, text(v, 30), p, f.name)

    def added(self, p, f, h):
        """an option that the override adds, which the class of the caller knows nothing about"""
        if f.cls is None or h.cls is None or h.cls is f.cls:
            return False
        g = h.cls.find(f.name) if h.cls in f.cls.mro() else None
        return g is not None and p not in g.allparams

    def state(self, p, back, f, carriers):
        """the value says where in the operation a call is: the calls give it different values"""
        back = [x for x in back if not self.is_super(x[0])]
        if len(back) < 2:
            return False
        vs = [(b.get(p), h) for _, h, b in back]
        given = [(v, h) for v, h in vs if v is not None]
        if len(given) < len(vs) or any(self.derives(v, h, carriers) for v, h in given):
            return False
        return len({ast.dump(v) for v, h in given}) > 1

    def fixed(self, v, h, f, p):
        """the same value at every level: made of nothing but the object, globals and other options as they were given"""
        if isinstance(v, ast.Name):
            ds = reach(h).use.get(v, ())
            if ds and all(d[0] == "param" and d[1] in h.defaults and d[1] != p for d in ds):
                return True
        names = [x for x in ast.walk(v) if isinstance(x, ast.Name)]
        if not names or any(isinstance(x, (ast.Call, ast.Subscript)) for x in ast.walk(v)):
            return False
        for x in names:
            if x.id == h.selfname:
                continue
            t = self.prj.lookup(x.id, h, h.module)
            if isinstance(t, tuple) and t[0] == "local":
                return False
        return any(isinstance(x, ast.Attribute) for x in ast.walk(v)) or True

    # -- to the overridden method, and to what does the work
    def forwards(self, f):
        sites = {}
        for n, g, b in self.sites[f]:
            if g is f or isinstance(f.node, ast.Module):
                continue
            sites.setdefault(g, []).append((n, b))
        for g, calls in sites.items():
            sup = g.name == f.name and f.cls is not None and g.cls in f.cls.mro()[1:] and any(self.is_super(n) for n, _ in calls)
            work = self.procedure(g) and f.cls is not None and g.cls is not None and (g.cls in f.cls.mro() or f.cls in g.cls.mro())
            if not sup and not work or g in self.family(f) and g.name == f.name and not sup:
                continue
            opts = dict.fromkeys(g.defaults, g)
            if g.kwarg and not sup:
                # what it takes as **kw is given to another
                for n, h, b in self.sites[g]:
                    if any(k.arg is None and isinstance(k.value, ast.Name) and k.value.id == g.kwarg for k in n.keywords):
                        for p in h.defaults:
                            if p not in b and p not in g.params:
                                opts.setdefault(p, h)
            for p, owner in opts.items():
                if p not in f.allparams or not sup and not self.same_default(f, owner, p):
                    continue
                names = {(f, p)}
                self.rep.count("options handed on")
                for n, b in calls:
                    if not sup and not self.own(n, f):
                        continue
                    self.rep.count("calls judged")
                    v = b.get(p) if owner is g else next((k.value for k in n.keywords if k.arg == p), None)
                    if v is None and not self.stars(n, f, p) and not self.under(n, f, names):
                        yield "not-handed-on", f, n, "%s() is given %s and calls %s() without it" % (f.name, p, g.name)
                    elif v is not None and not self.derives(v, f, names) and not self.under(n, f, names):
                        c, d = self.fold.value(v, f), self.fold.value(owner.defaults[p], owner)
                        if c is not UNKNOWN and d is not UNKNOWN and c == d and type(c) is type(d):
                            yield "not-handed-on", f, n, "%s() is given %s and calls %s() with its default %s" % (f.name, p, g.name, text(v, 30))
                        elif isinstance(v, ast.Name) and self.fixed(v, f, g, p) and v.id in f.defaults and v.id in g.defaults:
                            yield "replaced", f, n, "%s() is given %s and hands on %s in its place" % (f.name, p, v.id)

    def is_super(self, n):
        fn = n.func
        return isinstance(fn, ast.Attribute) and (isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super"
                                                  or isinstance(fn.value, ast.Name) and fn.value.id[:1].isupper())

    def own(self, n, f):
        fn = n.func
        return isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == f.selfname

    def same_default(self, f, g, p, q=None):
        q = q or p
        if p not in f.defaults:
            return False
        x, y = self.instead(f, p), self.instead(g, q)
        if x and y and x != y:
            return False            # each has a default of its own
        a, b = self.fold.value(f.defaults[p], f), self.fold.value(g.defaults[q], g)
        return a is not UNKNOWN and b is not UNKNOWN and (a == b and type(a) is type(b) or a is None and bool(x))

    def instead(self, f, p):
        """what is used when the option is None"""
        for n in walk_own(f.node):
            if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == p \
                    and isinstance(n.test.comparators[0], ast.Constant) and n.test.comparators[0].value is None:
                for s in n.body + n.orelse:
                    if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == p:
                        return ast.dump(s.value)
            if isinstance(n, (ast.IfExp, ast.BoolOp)) and isinstance(n._parent, ast.Assign) and isinstance(n._parent.targets[0], ast.Name) \
                    and n._parent.targets[0].id == p and p in {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}:
                return ast.dump(n)
        return None

    def procedure(self, g, seen=()):
        """does it change something (rather than answer a question)?"""
        if g in seen or g.is_lambda or isinstance(g.node, ast.Module):
            return False
        k = self.proc.get(g)
        if k is None:
            k = False
            for n in walk_own(g.node):
                if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    k = True
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    k = True
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr"):
                    k = True
            if not k:
                k = any(self.procedure(h, seen + (g,)) for _, h, _ in self.sites[g])
            if not seen:
                self.proc[g] = k
        return k


def run(prj, fold, rep):
    rep.rule("an operation that calls itself for the levels below, directly or through helpers, gives those calls the options it was given; "
             "an override gives them to what it overrides, and a method to the procedures of its object that share them")
    chk = Check(prj, fold, rep)
    for f in prj.funcs:
        rep.count("functions")
        if f.is_lambda or isinstance(f.node, ast.Module):
            continue
        done = set()
        for rule, h, n, msg in list(chk.cycle(f)) + list(chk.forwards(f)):
            k = (h, text(n, 80), msg)
            if k not in done:
                done.add(k)
                rep.finding(rule, h, text(n, 60), msg, n)


A = "lib/sldr/a.py"
BASE = '''class Doc:
    def __init__(self, fname, drafts=True, arrows=False):
        self.root, self.drafts = fname, drafts
        self.arrows = arrows
    def norm(self, base=None, guids=True, drafts=False):
        if base is None:
            base = self.root
        for b in base:
            self.norm(b, guids=guids, drafts=drafts)
        if drafts or guids:
            self.hashes(base, drafts=drafts)
    def hashes(self, base, drafts=False):
        base.hash = 1 if drafts else 2
    def rank(self, n, default=None):
        return n.get('draft', default)
    def merge(self, other, base, default=None, comments=None):
        for t in base:
            if t.other:
                self.alts(t, default=default, comments=comments)
            else:
                self.merge(t.other, t, default=default, comments=comments)
        return self.rank(base)
    def alts(self, t, default=None, comments=None):
        t.comments = comments
        t.rank = self.rank(t, default)
        self.leaf(t, default)
    def leaf(self, t, default='unconfirmed'):
        t.set('draft', default)
    def load(self, fname=None):
        if fname is None:
            fname = 'a.xml'
        self.table(fname)
        self.zones()
    def table(self, t):
        self.tab = t
    def zones(self, fname=None):
        if fname is None:
            fname = 'z.xml'
        self.zone = fname
    def ensure(self, path, text=None, before=None, **kw):
        n = self.process(path, text=text, before=before, **kw)
        return n or self.insert(path, before=before)
    def process(self, path, text=None, before=None, alt=None):
        self.made = [path, text, before, alt]
    def insert(self, path, **kw):
        return self.add(path, **kw)
    def add(self, path, before=None):
        self.made = [path, before]
    def walk(self, n, nest=False, ns=None):
        ns = {} if ns is None else ns.copy()
        for c in n:
            if c.tag == 'x':
                self.walk(c, nest=True, ns=ns)
            else:
                self.walk(c, nest=False, ns=ns)
    def over(self, o, drafts=False, this=None):
        for c in o:
            self.child(c, this, drafts)
    def child(self, o, this, drafts):
        self.over(o, drafts=drafts, this=o)
class Sub(Doc):
    def __init__(self, fname, drafts=True, arrows=False, winner=None):
        super().__init__(fname, drafts=drafts, arrows=arrows)
        self.winner = winner
    def walk(self, n, nest=False, ns=None, uid=True):
        if uid:
            n.uid = 1
        super().walk(n, nest, ns)
def item(s, groups=False):
    return item(s[1:]) if groups else None
'''


def _e(name, want, *edits):
    s = BASE
    for a, b in edits:
        assert a in s, a
        s = s.replace(a, b)
    return (name, {A: s}, want)


_NP, _R, _H = ["not-passed"], ["replaced"], ["not-handed-on"]
_N = "self.norm(b, guids=guids, drafts=drafts)"
_L = "        for b in base:\n            " + _N
EXAMPLES = [
    _e("fine", False),
    _e("dropped", _NP, (_N, "self.norm(b, guids=guids)")),
    _e("default again", _NP, (_N, "self.norm(b, guids=True, drafts=drafts)")),
    _e("from the object", _R, (_N, "self.norm(b, guids=guids, drafts=self.drafts)")),
    _e("swapped", _R, (_N, "self.norm(b, drafts, guids)")),
    _e("positions", False, (_N, "self.norm(b, guids, drafts)")),
    _e("a dictionary of options", False, (_L, "        opts = dict(guids=guids, drafts=drafts)\n        for b in base:\n            self.norm(b, **opts)")),
    _e("asked first", False, (_N, "self.norm(b, guids, True) if drafts else self.norm(b, guids)")),
    _e("other option asked first", _NP, (_N, "self.norm(b, guids=guids) if guids else None")),
    _e("in a helper", False, (_L, "        self.below(base, guids, drafts)"), ("    def rank(", "    def below(self, base, g, d):\n        for b in base:\n            self.norm(b, guids=g, drafts=d)\n    def rank(")),
    _e("dropped in a helper", _NP, (_L, "        self.below(base, guids)"), ("    def rank(", "    def below(self, base, g):\n        for b in base:\n            self.norm(b, guids=g)\n    def rank(")),
    _e("dropped before a helper", _R, (_L, "        self.below(base, guids, False)"), ("    def rank(", "    def below(self, base, g, drafts):\n        for b in base:\n            self.norm(b, guids=g, drafts=drafts)\n    def rank(")),
    _e("in a nested function", False, (_L, "        def go(b):\n            self.norm(b, guids=guids, drafts=drafts)\n        for b in base:\n            go(b)")),
    _e("dropped in a nested function", _NP, (_L, "        def go(b):\n            self.norm(b, guids=guids)\n        for b in base:\n            go(b)")),
    _e("handed on", _H, ("self.hashes(base, drafts=drafts)", "self.hashes(base)")),
    _e("merge", _NP, ("self.merge(t.other, t, default=default, comments=comments)", "self.merge(t.other, t, default=default)")),
    _e("merge positions", _R, ("self.merge(t.other, t, default=default, comments=comments)", "self.merge(t.other, t, comments, default)")),
    _e("alternates", _H, ("self.alts(t, default=default, comments=comments)", "self.alts(t, default=default)")),
    _e("leaf", False, ("self.leaf(t, default)", "self.leaf(t)")),
    _e("leaf with a default", _H, ("        t.comments = comments\n", "        t.comments = comments\n        if default is None:\n            default = self.drafts\n"), ("self.leaf(t, default)", "self.leaf(t)")),
    _e("before", _H, ("self.process(path, text=text, before=before, **kw)", "self.process(path, text=text, **kw)")),
    _e("before in what is passed on", _H, ("self.insert(path, before=before)", "self.insert(path)")),
    _e("put in what is passed on", False, ("        n = self.process(path, text=text, before=before, **kw)", "        kw['before'] = before\n        n = self.process(path, text=text, **kw)")),
    _e("walk", _NP, ("self.walk(c, nest=False, ns=ns)", "self.walk(c, nest=False)")),
    _e("override", _H, ("super().walk(n, nest, ns)", "super().walk(n, nest)")),
    _e("constructor", _H, ("super().__init__(fname, drafts=drafts, arrows=arrows)", "super().__init__(fname, drafts=drafts)")),
    _e("constructor swapped", _R, ("super().__init__(fname, drafts=drafts, arrows=arrows)", "super().__init__(fname, arrows, drafts)")),
    _e("through another", _NP, ("self.over(o, drafts=drafts, this=o)", "self.over(o, this=o)")),
    _e("constant on the way", _R, ("self.child(c, this, drafts)", "self.child(c, this, False)")),
    _e("renamed", False, ("self.child(c, this, drafts)", "d = drafts\n            self.child(c, this, d)")),
]
