"""P10: no loop changes what it is stepping through."""
import ast
from ..core import walk_own, dotted, targets, bind, text, Func, parents
from ..flow import flow, MUTATORS
from ..util import terminates

TECHNIQUE = "for every loop and comprehension: the object it steps through (through lazy wrappers, local aliases and generator functions) against every structural change in its body, direct or by the effect summaries of the functions called"
NOTE = "Objects are compared by access path (variables and fields, with local aliases resolved); two different paths are taken for different objects. Values assigned to keys of the loop, and changes after which the loop is left, are not counted."

LAZY = {"enumerate", "zip", "reversed", "iter", "filter", "map", "chain", "islice", "takewhile", "dropwhile", "zip_longest", "starmap", "filterfalse", "pairwise", "groupby"}
VIEWS = {"items", "keys", "values", "iter", "iterfind", "getchildren"}
CHANGES = MUTATORS - {"sort", "reverse", "setdefault", "__setitem__", "intersection_update", "__iadd__"} | {"intersection_update"}
DICTS = {"dict", "set", "OrderedDict", "defaultdict", "Counter"}


class Paths:
    def __init__(self, prj, f):
        self.prj, self.f = prj, f
        self.binds = {}
        for n in walk_own(f.node, include_lambda=False):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and len(n.targets) == 1:
                        self.binds.setdefault(t.id, []).append(n.value)
                    else:
                        for x in targets(t):
                            self.binds.setdefault(x, []).append(None)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                for x in targets(n.target):
                    self.binds.setdefault(x, []).append(n.value if isinstance(n, ast.AnnAssign) else None)
            elif isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)):
                for x in targets(n.target):
                    self.binds.setdefault(x, []).append(None)
            elif isinstance(n, ast.NamedExpr):
                self.binds.setdefault(n.target.id, []).append(None)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    for x in targets(i.optional_vars) if i.optional_vars is not None else ():
                        self.binds.setdefault(x, []).append(None)

    def stable(self, n):
        """the variable or field always refers to the same object in this function"""
        if isinstance(n, ast.Attribute):
            if any(isinstance(x, ast.Attribute) and x.attr == n.attr and isinstance(x.ctx, ast.Store) for x in walk_own(self.f.node)):
                return False
            return self.stable(n.value)
        if isinstance(n, ast.Name):
            b = self.binds.get(n.id, [])
            return len(b) + (n.id in self.f.allparams) <= 1
        return False

    def path(self, n, depth=0):
        """canonical name of the object an expression refers to, or None"""
        if isinstance(n, ast.Name):
            b = self.binds.get(n.id, [])
            if len(b) == 1 and b[0] is not None and n.id not in self.f.allparams and depth < 5 and isinstance(b[0], (ast.Name, ast.Attribute)) and self.stable(b[0]):
                p = self.path(b[0], depth + 1)
                if p is not None:
                    return p
            return n.id
        if isinstance(n, ast.Attribute):
            p = self.path(n.value, depth)
            return p + "." + n.attr if p is not None else None
        if isinstance(n, ast.Subscript) and isinstance(n.slice, (ast.Name, ast.Constant)):
            p = self.path(n.value, depth)
            return "%s[%s]" % (p, ast.unparse(n.slice)) if p is not None else None
        return None

    def iterated(self, n, depth=0):
        """[(path, expression, how)] of what is stepped through while the iterable is used"""
        if isinstance(n, ast.Call):
            d = (dotted(n.func) or "").split(".")[-1]
            e = self.prj.ext_name(n.func, self.f, self.f.module) or ""
            if d in LAZY and e and (e.startswith("builtins.") or e.startswith("itertools.")):
                args = n.args[1:] if d in ("filter", "map", "takewhile", "dropwhile", "starmap", "filterfalse") else n.args
                return [x for a in args for x in self.iterated(a, depth)]
            if isinstance(n.func, ast.Attribute) and n.func.attr in VIEWS and not e and not self.prj.callees(n, self.f, self.f.module)[0]:
                p = self.path(n.func.value)
                return [(p, n.func.value, n.func.attr)] if p else []
            gs, exact = self.prj.callees(n, self.f, self.f.module)
            if exact and len(gs) == 1 and depth < 3:
                return self.generator(gs[0], n, depth)
            return []
        if isinstance(n, ast.GeneratorExp):
            return [x for g in n.generators for x in self.iterated(g.iter, depth)]
        if isinstance(n, ast.Name):
            b = self.binds.get(n.id, [])
            if len(b) == 1 and isinstance(b[0], (ast.GeneratorExp, ast.Call)) and n.id not in self.f.allparams and depth < 4:
                r = self.iterated(b[0], depth + 1)
                if r:
                    return r
        p = self.path(n)
        return [(p, n, "")] if p else []

    def generator(self, g, call, depth):
        own = [x for x in walk_own(g.node, include_lambda=False) if isinstance(x, (ast.Yield, ast.YieldFrom))]
        if not own:
            return []
        gp = Paths(self.prj, g)
        res = []
        its = []
        for y in own:
            if isinstance(y, ast.YieldFrom):
                its.append(y.value)
            for p in parents(y):
                if isinstance(p, ast.For):
                    its.append(p.iter)
                if p is g.node:
                    break
        sub = self.sub(g, call)
        for it in its:
            for p, n, how in gp.iterated(it, depth + 1):
                r = self.rebase(p, sub)
                if r:
                    res.append((r, n, how))
        return res

    def sub(self, g, call):
        res = {}
        fn = call.func
        bound = g.cls is not None and not g.is_static
        for p, a in bind(call, g, bound).items():
            if isinstance(a, ast.AST):
                q = self.path(a)
                if q:
                    res[p] = q
        if bound and g.params and isinstance(fn, ast.Attribute):
            q = self.path(fn.value)
            if isinstance(fn.value, ast.Call) and (dotted(fn.value.func) or "") == "super":
                q = self.f.selfname
            if q and g.params[0] not in res:
                res[g.params[0]] = q
        return res

    def rebase(self, p, sub):
        cut = min([i for i in (p.find("."), p.find("[")) if i >= 0] or [len(p)])
        h = p[:cut]
        return sub[h] + p[cut:] if h in sub else None


def leaves(node, loop):
    """the loop is left after node, before its next step"""
    n = node
    while n is not loop and not isinstance(n, ast.stmt):
        n = n._parent
    flags = set()
    while n is not loop:
        par = n._parent
        for blk in ("body", "orelse", "finalbody"):
            b = getattr(par, blk, None)
            if isinstance(b, list) and n in b:
                if par is loop and blk == "orelse":
                    return True
                rest = b[b.index(n) + 1:] if not isinstance(par, (ast.For, ast.While)) or par is loop else b[b.index(n) + 1:]
                r = away(rest, loop, flags)
                if r is not None:
                    return r
                for s in b[:b.index(n)]:
                    flag(s, flags)
        if isinstance(par, ast.Try) and n not in par.finalbody:
            r = away(par.finalbody, loop, flags)
            if r is not None:
                return r
        n = par
        if n is None:
            return False
    return False


def flag(s, flags):
    if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and s.value.value is True:
        flags |= {x for t in s.targets for x in targets(t)}


def away(body, loop, flags):
    """True: control leaves the loop; False: it goes on to the next step; None: falls out of the end"""
    for s in body:
        flag(s, flags)
        if isinstance(s, (ast.Return, ast.Raise)):
            return True
        if isinstance(s, (ast.Break, ast.Continue)):
            p = s._parent
            prev = s
            while p is not None and not (isinstance(p, (ast.For, ast.While, ast.AsyncFor)) and prev in p.body):
                prev, p = p, p._parent
            if p is loop:
                return isinstance(s, ast.Break)
            return None
        if isinstance(s, ast.If):
            a, b = away(s.body, loop, flags), away(s.orelse, loop, flags)
            if s.orelse and a is not None and b is not None:
                return a and b
            if isinstance(s.test, ast.Name) and s.test.id in flags and a is not None:
                return a
        if isinstance(s, ast.With):
            a = away(s.body, loop, flags)
            if a is not None:
                return a
    return None


def changes(prj, fl, P, f, n, out):
    """structural changes made by one node: (path, what, key or None)"""
    if isinstance(n, ast.Call):
        gs, exact = prj.callees(n, f, f.module)
        fn = n.func
        if isinstance(fn, ast.Attribute) and fn.attr in CHANGES and not (gs and exact) and not prj.ext_name(fn, f, f.module):
            p = P.path(fn.value)
            if p:
                out.append((p, fn.attr, None))
            elif isinstance(fn.value, ast.Subscript):
                pass
        if isinstance(fn, ast.Attribute) and fn.attr in ("setdefault",) and not (gs and exact) and n.args:
            p = P.path(fn.value)
            if p:
                out.append((p, "setdefault", n.args[0]))
        e = prj.ext_name(fn, f, f.module) or ""
        if e.endswith(".SubElement") and n.args:
            p = P.path(n.args[0])
            if p:
                out.append((p, "SubElement", None))
        if len(gs) == 1 or exact:
            for g in gs:
                sub = P.sub(g, n)
                for t, (h, at) in fl.sum[g].struct.items():
                    p = tokpath(t, sub, f)
                    if p:
                        out.append((p, "%s, called here," % g.qual, None))
    elif isinstance(n, ast.Delete):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                p = P.path(t.value)
                if p:
                    out.append((p, "del", None))
    elif isinstance(n, ast.Assign):
        for t in n.targets:
            for x in [t] + (list(t.elts) if isinstance(t, (ast.Tuple, ast.List)) else []):
                if isinstance(x, ast.Subscript):
                    p = P.path(x.value)
                    if p:
                        out.append((p, "slice" if isinstance(x.slice, ast.Slice) else "item", x.slice))
    elif isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.BitOr, ast.Sub, ast.BitAnd)):
        p = P.path(n.target)
        if p and isinstance(n.target, (ast.Name, ast.Attribute)):
            out.append((p, "augmented", n.value))


def tokpath(t, sub, f):
    if t[0] == "p" and t[1] in sub:
        p = sub[t[1]]
    elif t[0] == "v" and (f.qual == t[1] or t[2] not in f.locals):
        p = t[2]
    elif t[0] == "g" and t[1] == f.module.name:
        p = t[2]
    else:
        return None
    for s in t[-1]:
        if s in "*…":
            return None
        p += "." + s
    return p


def isdict(P, f, n, how):
    if how in ("items", "keys", "values"):
        return True
    b = []
    if isinstance(n, ast.Name):
        b = P.binds.get(n.id, [])
    elif isinstance(n, ast.Attribute):
        c = P.prj.own_class(f)
        b = [getattr(x._parent, "value", None) for k in (c.family() if c else ()) for g, x in k.selfattrs.get(n.attr, [])]
    return bool(b) and all(isinstance(v, (ast.Dict, ast.DictComp)) or isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] in DICTS for v in b)


def isnew(P, n):
    """a local list rather than an element"""
    if isinstance(n, ast.Name):
        return any(isinstance(v, (ast.List, ast.ListComp, ast.Call, ast.Dict, ast.Set, ast.BinOp)) or v is None for v in P.binds.get(n.id, []) if not (v is None and n.id in P.f.allparams)) and not any(
            isinstance(l, ast.For) and n.id in targets(l.target) for l in walk_own(P.f.node))
    return False


def run(prj, fold, rep):
    fl = flow(prj, fold)
    rep.rule("nothing in a loop adds to or removes from what the loop steps through, unless the loop is left straight afterwards")
    for f in prj.funcs + [m.main for m in prj.modules.values() if m.main not in prj.funcs]:
        if f.is_lambda:
            continue
        P = None
        for loop in walk_own(f.node, include_lambda=True):
            gens = []
            if isinstance(loop, (ast.For, ast.AsyncFor)):
                gens = [(loop.target, loop.iter)]
                body = loop.body
            elif isinstance(loop, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                gens = [(g.target, g.iter) for g in loop.generators]
                body = [loop.key, loop.value] if isinstance(loop, ast.DictComp) else [loop.elt]
                body = body + [i for g in loop.generators for i in g.ifs]
            if not gens:
                continue
            P = P or Paths(prj, f)
            rep.count("loops")
            for tgt, it in gens:
                its = P.iterated(it)
                if not its:
                    continue
                rep.count("loops_over_named_objects")
                names = set(targets(tgt))
                rebound = set()
                for s in body:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and not isinstance(x._parent, ast.AugAssign):
                            rebound.add(x.id)
                for s in body:
                    for n in inner(s):
                        out = []
                        changes(prj, fl, P, f, n, out)
                        if isinstance(n, (ast.Call, ast.Delete, ast.Assign, ast.AugAssign)):
                            rep.count("statements_checked")
                        for p, what, key in out:
                            for q, x, how in its:
                                head = q.split(".")[0].split("[")[0]
                                if head in rebound and head not in names:
                                    continue
                                same = p == q
                                if not same and how == "" and len(names) == 1 and isinstance(it, (ast.Name, ast.Attribute, ast.Call)) and p == "%s.parent" % next(iter(names)) and not isnew(P, x):
                                    same = element(prj, f, P, x, names)
                                if not same:
                                    continue
                                if what in ("item", "setdefault", "augmented") and not grows(P, f, x, how, what, key, names, n, loop):
                                    continue
                                if isinstance(loop, (ast.For, ast.AsyncFor)) and leaves(n, loop):
                                    continue
                                if not isinstance(loop, (ast.For, ast.AsyncFor)) and False:
                                    continue
                                rep.finding("changed", f, text(n), "%s is changed (%s) in the loop over it" % (q, what), n)


def grows(P, f, x, how, what, key, names, n, loop):
    """an item assignment that may add a key"""
    if what == "augmented":
        return not isdict(P, f, x, how) and not (isinstance(key, ast.Constant)) and listy(P, f, x)
    if not isdict(P, f, x, how):
        return False
    used = {y.id for y in ast.walk(key) if isinstance(y, ast.Name)}
    if isinstance(key, ast.Name) and key.id in names:
        return False
    if isinstance(key, ast.Constant) and False:
        return True
    kd = ast.dump(key)
    for p in parents(n):        # only where the key is there
        if isinstance(p, (ast.If, ast.IfExp)) and any(isinstance(c, ast.Compare) and isinstance(c.ops[0], ast.In) and ast.dump(c.left) == kd for c in ast.walk(p.test)):
            return False
        if p is loop:
            break
    return True


def listy(P, f, x):
    if isinstance(x, ast.Name):
        b = P.binds.get(x.id, [])
        return any(isinstance(v, (ast.List, ast.ListComp)) or isinstance(v, ast.Call) and (dotted(v.func) or "") in ("list", "set", "sorted") for v in b if v is not None)
    c = P.prj.own_class(f)
    if isinstance(x, ast.Attribute) and c is not None:
        b = [getattr(y._parent, "value", None) for k in c.family() for g, y in k.selfattrs.get(x.attr, [])]
        return any(isinstance(v, (ast.List, ast.ListComp, ast.Set, ast.SetComp)) or isinstance(v, ast.Call) and (dotted(v.func) or "") in ("list", "set", "sorted") for v in b if v is not None)
    return False


def element(prj, f, P, x, names):
    """x is an element (not a list of elements from anywhere)"""
    if isinstance(x, ast.Name):
        if x.id in f.allparams or x.id in P.binds and all(v is None for v in P.binds[x.id]):
            return True
        if x.id in P.binds:
            return False
    return isinstance(x, (ast.Name, ast.Attribute))


def inner(s):
    """nodes of a statement, without inner functions (what a lambda does happens later)"""
    todo = [s]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                todo.append(c)


def ex(name, body, want, pre=""):
    return (name, {"lib/sldr/a.py": pre + "def f(d, x, y=None):\n" + "".join("    " + l + "\n" for l in body.split("\n")) + "    return d\n"}, ["changed"] if want else False)


EXAMPLES = [
 ex("remove", "for c in d:\n    if c.tag == x:\n        d.remove(c)", True),
 ex("remove from snapshot", "for c in list(d):\n    if c.tag == x:\n        d.remove(c)", False),
 ex("remove and leave", "for c in d:\n    if c.tag == x:\n        d.remove(c)\n        break", False),
 ex("remove and return", "for c in d:\n    if c.tag == x:\n        d.remove(c)\n        return c", False),
 ex("remove and continue", "for c in d:\n    if c.tag == x:\n        d.remove(c)\n        continue\n    return c", True),
 ex("leave the inner loop only", "for c in d:\n    for e in c:\n        if e.tag == x:\n            d.remove(c)\n            break", True),
 ex("leave both loops", "for c in d:\n    for e in c:\n        if e.tag == x:\n            d.remove(c)\n            break\n    break", False),
 ex("lazy filter", "for c in filter(lambda e: e.tag == x, d):\n    d.remove(c)", True),
 ex("lazy generator", "for c in (e for e in d if e.tag == x):\n    d.remove(c)", True),
 ex("list comprehension first", "for c in [e for e in d if e.tag == x]:\n    d.remove(c)", False),
 ex("through the parent", "for c in d:\n    if c.tag == x:\n        c.parent.remove(c)", True),
 ex("another list's parents", "l = x.findall('a')\nfor c in l:\n    c.parent.remove(c)", False),
 ex("del key", "for k in d:\n    if d[k] == x:\n        del d[k]", True),
 ex("del key from keys()", "for k in d.keys():\n    if d[k] == x:\n        del d[k]", True),
 ex("del key, snapshot", "for k in list(d.keys()):\n    if d[k] == x:\n        del d[k]", False),
 ex("del key, sorted", "for k, v in sorted(d.items()):\n    if v == x:\n        d.pop(k)", False),
 ex("assign to key", "for k, v in d.items():\n    d[k] = v + x", False),
 ex("assign another key", "for k, v in d.items():\n    d[k.lower()] = v", True),
 ex("assign existing key", "for k, v in d.items():\n    j = k.lower()\n    if j in d:\n        d[j] = v", False),
 ex("list item", "for i, v in enumerate(d):\n    d[i] = v + x", False),
 ex("append to itself", "for v in d:\n    d.append(v)", True),
 ex("append to another", "r = []\nfor v in d:\n    r.append(v)\nd = r", False),
 ex("alias", "e = d\nfor v in d:\n    if v == x:\n        e.remove(v)", True),
 ex("field", "for v in d.items_:\n    if v == x:\n        d.items_.remove(v)", True),
 ex("helper", "for v in d:\n    drop(d, v)", True, "def drop(l, v):\n    if v in l:\n        l.remove(v)\n"),
 ex("helper of something else", "for v in d:\n    drop(x, v)", False, "def drop(l, v):\n    if v in l:\n        l.remove(v)\n"),
 ex("nested function", "l = list(d)\ndef drop(v):\n    l.remove(v)\nfor v in l:\n    drop(v)", True),
 ex("generator function", "for v in kids(d):\n    d.remove(v)", True, "def kids(n):\n    for c in n:\n        if c.tag:\n            yield c\n"),
 ex("list function", "for v in kids(d):\n    d.remove(v)", False, "def kids(n):\n    return [c for c in n if c.tag]\n"),
 ex("comprehension", "return [d.pop(k) for k in d if k.startswith(x)]", True),
 ex("snapshot comprehension", "return [d.pop(k) for k in list(d) if k.startswith(x)]", False),
 ex("set", "for v in d:\n    if v < 3:\n        d.discard(v)", True),
 ex("rebound", "for v in d:\n    d = [w for w in d if w != v]\n    d.append(x)", False),
 ex("flag", "for v in d:\n    done = False\n    if v == x:\n        d.remove(v)\n        done = True\n    if done:\n        break", False),
 ("method changes the field", {"lib/sldr/a.py": "class A:\n    def __init__(self):\n        self.l = []\n    def drop(self, x):\n        self.l.remove(x)\n    def f(self):\n        for x in self.l:\n            if x > 1:\n                self.drop(x)\n"}, ["changed"]),
 ("method changes the field, snapshot", {"lib/sldr/a.py": "class A:\n    def __init__(self):\n        self.l = []\n    def drop(self, x):\n        self.l.remove(x)\n    def f(self):\n        for x in self.l[:]:\n            if x > 1:\n                self.drop(x)\n"}, False),
]
