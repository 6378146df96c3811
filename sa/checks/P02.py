"""P02: calls do not change defaults, module tables or class data that other calls see."""
import ast
from ..core import text, walk_own, parents, dotted, Class, targets, Func
from ..consts import callers
from ..facts import FactWalker
from ..flow import flow, root, show, mutable_expr, plain
from ..util import library_code, only_main, in_main_guard
from ..noret import noreturn

TECHNIQUE = "interprocedural alias and effect analysis (access paths from parameters, defaults, module globals and class data) of every library function, with loaders and keyed memos recognised by what they do"
NOTE = "Aliases are followed through fields, items, copies and calls; an object reached only through an unresolved call is not followed. A loader is a module or class level function that reads a file itself, or is only called by such functions."

READS = {"builtins.open", "io.open", "codecs.open", "xml.parsers.expat.ParserCreate", "csv.reader", "json.load"}


class Loaders:
    def __init__(self, prj):
        self.prj, self.memo = prj, {}

    def top(self, f):
        while f.outer is not None and f.outer is not f.module.main:
            f = f.outer
        return f

    def is_loader(self, f, busy=()):
        f = self.top(f)
        if f in self.memo:
            return self.memo[f]
        if f in busy:
            return True
        if f is f.module.main:
            return not f.module.is_script
        if f.cls is not None and not (f.is_static or f.is_classmethod):
            return False
        r = self.reads(f)
        if not r:
            cs = callers(self.prj).get(f, [])
            r = bool(cs) and all(self.is_loader(g, busy + (f,)) or in_main_guard(c) for c, g in cs)
        if not busy:
            self.memo[f] = r
        return r

    def reads(self, f):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                e = self.prj.ext_name(n.func, f, f.module) or ""
                if e in READS or e.endswith(("ElementTree.parse", "etree.parse")):
                    return True
        return False


def names_of(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def depends(f, exprs):
    """parameters (and 'self' fields) of f the expressions are computed from, through its locals"""
    seen, todo = set(), set()
    for e in exprs:
        todo |= names_of(e)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for n in walk_own(f.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if any(x in targets(t) for t in ts) or any(isinstance(t, (ast.Subscript, ast.Attribute)) and isinstance(t.value, ast.Name) and t.value.id == x for t in ts):
                    todo |= names_of(n.value)
                    todo |= conditions(n, f)
            elif isinstance(n, ast.AugAssign) and x in names_of(n.target):
                todo |= names_of(n.value) | conditions(n, f)
            elif isinstance(n, (ast.For, ast.comprehension)) and x in targets(n.target):
                todo |= names_of(n.iter)
            elif isinstance(n, ast.NamedExpr) and n.target.id == x:
                todo |= names_of(n.value)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None and x in targets(i.optional_vars):
                        todo |= names_of(i.context_expr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == x and isinstance(n._parent, ast.Expr):
                for a in n.args:
                    todo |= names_of(a)
                todo |= conditions(n, f)
    return seen


def conditions(n, f):
    res = set()
    prev = n
    for p in parents(n):
        if p is f.node:
            break
        if isinstance(p, (ast.If, ast.While)) and prev is not p.test:
            res |= names_of(p.test)
        prev = p
    return res


class Stores(FactWalker):
    """facts at the writes to globals and memo tables"""
    def __init__(self, f):
        super().__init__(f)
        self.noreturn = None
        self.at = {}

    def expr(self, n, facts):
        self.at[n] = facts

    def stmt(self, s, facts):
        self.at[s] = facts


def run(prj, fold, rep):
    fl = flow(prj, fold)
    ld = Loaders(prj)
    rep.rule("a library call modifies no default argument, module table or class data, other than in loaders and in memo tables keyed by everything the value depends on")
    facts = {}

    def facts_at(f, node):
        if f not in facts:
            w = Stores(f)
            w.noreturn = noreturn(prj, f)
            w.run()
            facts[f] = w.at
        while node is not None and node is not f.node:
            if node in facts[f]:
                return facts[f][node]
            node = getattr(node, "_parent", None)
        return []

    def memo_store(f, node):
        """('ok'|'bad', why) when node fills an entry of a table that is looked up first"""
        tab = key = val = None
        if isinstance(node, ast.Subscript) and isinstance(node.ctx, ast.Store):
            tab, key = node.value, node.slice
            par = node._parent
            val = getattr(par, "value", None)
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "setdefault" and len(node.args) == 2:
            tab, key, val = node.func.value, node.args[0], node.args[1]
        if tab is None or val is None:
            return None
        td, kd = ast.dump(tab).replace("Store()", "Load()"), ast.dump(key)
        guarded = isinstance(node, ast.Call)
        for fa in facts_at(f, node):
            n = fa.node
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and fa.pol == isinstance(n.ops[0], ast.NotIn) \
                    and ast.dump(n.left) == kd and (ast.dump(n.comparators[0]) == td or norm(n.comparators[0]) == norm(tab)):
                guarded = True
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)) and isinstance(n.comparators[0], ast.Constant) \
                    and n.comparators[0].value is None and fa.pol == isinstance(n.ops[0], (ast.Is, ast.Eq)):
                ns = names_of(n.left)
                for x in walk_own(f.node):      # v = table.get(k); if v is None: table[k] = ...
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "get" and x.args and ast.dump(x.args[0]) == kd and norm(x.func.value) == norm(tab):
                        if isinstance(x._parent, ast.Assign) and set(targets(x._parent.targets[0])) & ns or x is n.left:
                            guarded = True
        prev = node
        for p in parents(node):
            if isinstance(p, ast.ExceptHandler) and p.type is not None and "KeyError" in ast.dump(p.type):
                guarded = True
            if p is f.node:
                break
        if not guarded:
            return None
        pars = set(f.allparams) | ({f.vararg} if f.vararg else set()) | ({f.kwarg} if f.kwarg else set())
        need = depends(f, [val]) & pars
        have = depends(f, [key]) & pars
        if f.selfname in need:
            c = prj.own_class(f)
            inst = instance_reads(prj, fl, f, c)
            if not inst or f.selfname in have:
                need.discard(f.selfname)
        if f.is_classmethod:
            need.discard(f.selfname)
        miss = sorted(need - have)
        return ("bad", "the entry is looked up by %s but depends on %s as well" % (text(key), ", ".join(miss))) if miss else ("ok", "")

    def norm(n):
        d = dotted(n) or ast.dump(n)
        return d.split(".")[-1]

    seen = set()
    nfun = 0
    for f in prj.funcs:
        if f.module.is_script or f.is_lambda or f is f.module.main:
            continue
        nfun += 1
        if only_main(prj, f):
            continue
        s = fl.sum[f]
        for t, kind, g, node in [(t, kind, g, node) for (t, kind, x), (g, node) in s.shared.items()] + [(t, kind, g, node) for (t, kind), (g, node) in s.mut.items() if t[0] not in "gc"]:
            shared = t[0] in "gc"
            deflt = t[0] == "p" and not t[-1] and kind == "items" and mutable_expr(f.defaults.get(t[1]))
            deflt = deflt or t[0] == "p" and t[-1] and isinstance(f.defaults.get(t[1]), ast.Name) and kind == "items" and False
            if t[0] == "p" and t[1] in f.defaults and isinstance(f.defaults[t[1]], (ast.Name, ast.Attribute)) and kind == "items" and not t[-1]:
                d = f.defaults[t[1]]        # a table as default
                if isinstance(d, ast.Name) and any(mutable_expr(getattr(x, "value", None)) for x in f.module.globals.get(d.id, [])):
                    deflt = True
            if t[0] == "g":
                m = prj.modules.get(t[1])
                if m is None or m.is_script:
                    continue
            if not (shared or deflt):
                continue
            key = (root(t), node) if shared else (f, t[1], node)
            if key in seen:
                continue
            seen.add(key)
            if in_main_guard(node) or g is not f and in_main_guard(f.node):
                continue
            what = "the default of parameter %s" % t[1] if deflt else show(t)
            rep.count("writes_to_shared_data")
            rep.site("%s:%s %s in %s" % (g.module.path, getattr(node, "lineno", "?"), what, g.qual))
            if shared:
                if ld.is_loader(f) or ld.is_loader(g) and g is not f and not (g.cls is None and kind == "items" and not ld.reads(ld.top(g))):
                    if kind == "rebind":
                        cached(rep, g, t[2], node, facts_at)
                    continue
                if metaclass_call(f):
                    continue
                m = memo_store(g, node) if g is f else None
                if m and m[0] == "ok":
                    continue
                if m:
                    rep.finding("memo", f, show(t), "%s keeps results between calls: %s" % (what, m[1]), node)
                    continue
                if kind == "rebind" and lazily(f, node, t):
                    continue
            rep.finding("state", f, show(t) if shared else t[1], "%s is changed%s, which every later call sees" % (what, "" if g is f else " by " + g.qual), node)
        # shared objects kept in a field that is changed elsewhere
        for (t, fld, x), (g, node) in s.sto.items():
            if fld == "*" or fld in ("=", "?") or t[0] not in "pn":
                continue
            shared = x[0] in "gc" and not (x[0] == "g" and prj.modules[x[1]].is_script)
            d = f.defaults.get(x[1]) if x[0] == "p" and not x[-1] else None
            deflt = d is not None and (mutable_expr(d) or isinstance(d, ast.Name) and any(mutable_expr(getattr(y, "value", None)) for y in f.module.globals.get(d.id, [])))
            if not (shared or deflt):
                continue
            w = changed_field(fl, prj, fld, prj.own_class(f) if t == ("p", f.selfname, ()) else None)
            if w is not None and not ld.is_loader(w[0]) and (f, fld, x) not in seen:
                seen.add((f, fld, x))
                rep.finding("state", f, fld, "%s is kept in field %s, which %s changes" % ("the default of parameter %s" % x[1] if deflt else show(x), fld, w[0].qual), node)
    rep.count("functions", nfun)

    # plain class or module values replaced by calls
    for f in prj.funcs:
        if f.module.is_script or f.is_lambda or f is f.module.main or only_main(prj, f):
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                c = class_expr(prj, f, n.value)
                if c is None or in_main_guard(n):
                    continue
                rep.count("class_attribute_stores")
                if ld.is_loader(f):
                    cached(rep, f, n.attr, n, facts_at)
                    continue
                if lazily(f, n, None) or metaclass_call(f):
                    continue
                rep.finding("state", f, "%s.%s" % (c.name, n.attr), "class attribute %s.%s is replaced, which all other objects of the class see" % (c.name, n.attr), n)
        guarded_loads(prj, fl, ld, f, rep)
        for name in f.globals_:         # plain module variables
            st = [n for n in walk_own(f.node) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)]
            for n in st:
                if in_main_guard(n) or (("g", f.module.name, name, ()), "rebind") in fl.sum[f].mut:
                    continue
                rep.finding("state", f, name, "module variable %s is replaced" % name, n)


    return


def metaclass_call(f):
    return f.name in ("__call__", "__new__", "__init_subclass__") and f.cls is not None and (f.name != "__call__" or any(b in ("type", "builtins.type", "ABCMeta") for b in f.cls.basenames))


def instance_reads(prj, fl, f, c):
    """fields of the instance (not class data) the function reads"""
    for n in walk_own(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == f.selfname and isinstance(n.ctx, ast.Load):
            if c is None:
                return True
            if c.find(n.attr) is not None or fl.class_attr(c, n.attr) is not None:
                continue
            if any(n.attr in k.attrs for k in c.mro()) and not any(n.attr in k.selfattrs for k in c.family()):
                continue
            own = [x for k in c.family() for x in k.selfattrs.get(n.attr, []) if not (x[0].is_classmethod or (x[0].outer is not None and x[0].outer.is_classmethod))]
            if own:
                return True
    return False


def class_expr(prj, f, n):
    """class an expression denotes in f, or None"""
    if isinstance(n, ast.Name):
        t = prj.lookup(n.id, f, f.module)
        if isinstance(t, Class):
            return t
        g = f
        while g is not None:
            if g.is_classmethod and g.selfname == n.id:
                return g.cls
            if n.id in g.locals:
                return None
            g = g.outer
    if isinstance(n, ast.Attribute) and n.attr == "__class__" and isinstance(n.value, ast.Name):
        return prj.self_class(n.value.id, f)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "type" and len(n.args) == 1 and isinstance(n.args[0], ast.Name):
        return prj.self_class(n.args[0].id, f)
    return None


def changed_field(fl, prj, fld, cls=None):
    """a library function that changes the object in a field of that name in place"""
    k = (fld, cls)
    if not hasattr(fl, "_chg"):
        fl._chg = {}
    if k not in fl._chg:
        r = None
        for f, s in fl.sum.items():
            if f.module.is_script or r:
                continue
            for (t, kind), (g, node) in s.mut.items():
                if kind == "items" and t[0] in "pv" and len(t[-1]) == 1 and t[-1][0] == fld and (cls is None or t[0] == "p" and t[1] == f.selfname and f.cls in cls.family()):
                    r = (g, node)
                    break
        fl._chg[k] = r
    return fl._chg[k]


def lazily(f, node, t):
    """the store happens only while the object is not there yet, and what is stored does not depend on the call's arguments"""
    s = node
    while s is not None and not isinstance(s, ast.stmt):
        s = s._parent
    v = getattr(s, "value", None)
    name = node.attr if isinstance(node, ast.Attribute) else getattr(node, "id", None)
    if v is None or name is None:
        return False
    guard = False
    prev = s
    for p in parents(s):
        if isinstance(p, ast.If) and prev in p.body:
            if any(isinstance(x, ast.Attribute) and x.attr == name or isinstance(x, ast.Name) and x.id == name or isinstance(x, ast.Constant) and x.value == name for x in ast.walk(p.test)):
                guard = True
        if p is f.node:
            break
        prev = p
    for x in f.node.body:       # if it is there: return it
        if x is s or x.lineno > s.lineno:
            break
        if isinstance(x, ast.If) and any(isinstance(y, ast.Return) for y in x.body) and any(isinstance(y, (ast.Name, ast.Attribute)) and (getattr(y, "id", None) == name or getattr(y, "attr", None) == name) for y in ast.walk(x.test)):
            guard = True
    if not guard:
        return False
    return not (depends(f, [v]) & (set(f.allparams) - {f.selfname}))


def cached(rep, f, name, node, facts_at):
    """a loader that gives back what it loaded before must do so only for the same arguments"""
    s = node
    while s is not None and not isinstance(s, ast.stmt):
        s = s._parent
    v = getattr(s, "value", None)
    if v is None:
        return
    def is_it(x):
        return isinstance(x, ast.Name) and x.id == name or isinstance(x, ast.Attribute) and x.attr == name
    early = [n for n in walk_own(f.node) if isinstance(n, ast.Return) and n.value is not None and is_it(n.value) and n.lineno < s.lineno]
    if not early:
        return
    ps = (depends(f, [v]) & set(f.allparams)) - {f.selfname}
    rep.count("caching_loaders")
    for p in sorted(ps):
        for n in early + [s]:
            if not any(p in fa.names and (fa.names == {p} or len(fa.names) == 1) for fa in facts_at(f, n)):
                rep.finding("memo", f, name, "%s is %s whatever %s is, though what was loaded depends on it" % (name, "kept" if n is s else "given back", p), n)
                break


def guarded_loads(prj, fl, ld, f, rep):
    """`if not loaded: load(x)` with an x that differs from call to call"""
    for n in walk_own(f.node):
        if not isinstance(n, ast.Call) or not (n.args or n.keywords):
            continue
        gs, exact = prj.callees(n, f, f.module)
        if not gs or not all(ld.is_loader(g) and ld.reads(g) and any(k == "rebind" or t[0] in "gc" or t == ("p", g.selfname, ()) for (t, k) in fl.sum[g].mut) for g in gs):
            continue
        prev, test = n, None
        for p in parents(n):
            if isinstance(p, ast.If) and prev in p.body and ("hasattr" in ast.dump(p.test) or "Constant(value=None)" in ast.dump(p.test)):
                test = p.test
            if p is f.node:
                break
            prev = p
        if test is None:
            continue
        ps = (depends(f, list(n.args) + [k.value for k in n.keywords]) & set(f.allparams)) - {f.selfname}
        ps -= names_of(test)
        if ps:
            rep.finding("memo", f, text(n.func), "data shared by all calls is loaded from %s on first use only" % ", ".join(sorted(ps)), n)


EXAMPLES = [
 ("mutable default", {"lib/sldr/a.py": "def f(x, acc=[]):\n    acc.append(x)\n    return acc\n"}, ["state"]),
 ("default only read", {"lib/sldr/a.py": "def f(x, acc=[]):\n    return acc + [x]\n"}, False),
 ("default copied", {"lib/sldr/a.py": "def f(x, acc={}):\n    acc = dict(acc)\n    acc[x] = 1\n    return acc\n"}, False),
 ("default changed by a helper", {"lib/sldr/a.py": "def g(d, x):\n    d[x] = 1\ndef f(x, acc={}):\n    g(acc, x)\n    return acc\n"}, ["state"]),
 ("default kept in a field that is changed", {"lib/sldr/a.py": "class A:\n    def __init__(self, names={}):\n        self.names = names\n    def add(self, n):\n        self.names[n] = 1\n"}, ["state"]),
 ("None default", {"lib/sldr/a.py": "class A:\n    def __init__(self, names=None):\n        self.names = names if names is not None else {}\n    def add(self, n):\n        self.names[n] = 1\n"}, False),
 ("module table changed", {"lib/sldr/a.py": "TAB = {'a': [1]}\ndef f(x):\n    TAB['a'].append(x)\n"}, ["state"]),
 ("module table alias", {"lib/sldr/a.py": "TAB = {'a': [1]}\ndef f(x):\n    l = TAB.get('a')\n    l += [x]\n    return l\n"}, ["state"]),
 ("module table copied", {"lib/sldr/a.py": "TAB = {'a': [1]}\ndef f(x):\n    l = list(TAB.get('a'))\n    l += [x]\n    return l\n"}, False),
 ("returned table changed by caller", {"lib/sldr/a.py": "TAB = {'a': [1]}\ndef g(k):\n    return TAB[k]\ndef f(x):\n    l = g('a')\n    l.append(x)\n    return l\n"}, ["state"]),
 ("class data changed", {"lib/sldr/a.py": "class A:\n    keys = set()\n    def f(self, x):\n        k = self.keys\n        k |= {x}\n        return k\n"}, ["state"]),
 ("class data loaded then changed", {"lib/sldr/a.py": "class A:\n    @classmethod\n    def load(cls, fname):\n        with open(fname) as f:\n            cls.keys = set(f.read().split())\n    def f(self, x):\n        k = self.keys\n        k -= {x}\n        return k\n"}, ["state"]),
 ("class data loaded", {"lib/sldr/a.py": "class A:\n    @classmethod\n    def load(cls, fname):\n        cls.keys = set()\n        with open(fname) as f:\n            for l in f:\n                cls.keys.add(l)\n    def f(self, x):\n        k = set(self.keys)\n        k -= {x}\n        return k\n"}, False),
 ("instance data", {"lib/sldr/a.py": "class A:\n    keys = None\n    def __init__(self):\n        self.keys = set()\n    def f(self, x):\n        self.keys.add(x)\n"}, False),
 ("class attribute replaced", {"lib/sldr/a.py": "class A:\n    mode = 'a'\n    def f(self, x):\n        self.__class__.mode = x\n"}, ["state"]),
 ("module variable replaced", {"lib/sldr/a.py": "last = ''\ndef f(x):\n    global last\n    r = last + x\n    last = x\n    return r\n"}, ["state"]),
 ("keyed memo", {"lib/sldr/a.py": "memo = {}\ndef f(x):\n    if x not in memo:\n        memo[x] = [x, x]\n    return len(memo[x])\n"}, False),
 ("memo without the whole key", {"lib/sldr/a.py": "memo = {}\ndef f(x, mode):\n    if x not in memo:\n        memo[x] = x.upper() if mode else x\n    return memo[x]\n"}, ["memo"]),
 ("memo with the whole key", {"lib/sldr/a.py": "memo = {}\ndef f(x, mode):\n    k = (x, bool(mode))\n    if k not in memo:\n        memo[k] = x.upper() if mode else x\n    return memo[k]\n"}, False),
 ("cached load whatever the path", {"lib/sldr/a.py": "cache = None\ndef f(path='x.txt'):\n    global cache\n    if cache is not None:\n        return cache\n    with open(path) as f:\n        cache = f.read()\n    return cache\n"}, ["memo"]),
 ("cached load of the default", {"lib/sldr/a.py": "cache = None\ndef f(path=None):\n    global cache\n    if path is None:\n        if cache is not None:\n            return cache\n    with open(path or 'x.txt') as f:\n        r = f.read()\n    if path is None:\n        cache = r\n    return r\n"}, False),
 ("cached result changed", {"lib/sldr/a.py": "import functools\n@functools.lru_cache(None)\ndef g(x):\n    return [x]\ndef f(x):\n    l = g(x)\n    l.append(1)\n    return l\n"}, ["state"]),
]
